--------------------------------- MODULE Docs ---------------------------------
EXTENDS Sequences
(***************************************************************************)
(* What the server documents: the filters and tests of MiniJinja, each     *)
(* with words its documentation can't do without.                          *)
(***************************************************************************)
FilterDocs ==
  { "abs", "attr", "batch", "bool", "capitalize", "default", "dictsort", "escape", "first", "float",
    "indent", "int", "items", "join", "last", "length", "list", "lower", "map", "max", "min", "pprint",
    "reject", "rejectattr", "replace", "reverse", "round", "safe", "select", "selectattr", "slice",
    "sort", "title", "tojson", "trim", "unique", "upper", "urlencode" }
\* the documentation of a filter starts with its name
FilterWords(n) == "**" \o n \o "**"

TestDocs ==
  [ boolean |-> "boolean", defined |-> "is defined", divisibleby |-> "divisible", endingwith |-> "ending",
    eq |-> "`==`", even |-> "even", false |-> "false", filter |-> "filter", float |-> "float", ge |-> "`>=`",
    gt |-> "`>`", in |-> "in", integer |-> "integer", iterable |-> "iterated", le |-> "`<=`",
    lower |-> "lowercase", lt |-> "`<`", mapping |-> "mapping", ne |-> "`!=`", none |-> "none",
    number |-> "number", odd |-> "odd", safe |-> "safe", sameas |-> "identical", sequence |-> "sequence",
    startingwith |-> "starting", string |-> "is a string", test |-> "test", true |-> "true",
    undefined |-> "undefined", upper |-> "uppercase" ]

\* snippets and what each of them writes
Snippets ==
  [ for1 |-> "endfor", for2 |-> "endfor", with |-> "endwith", set1 |-> " set ", set2 |-> "endset",
    include |-> "include", from |-> "import", import |-> " as ", extends |-> "extends", if1 |-> "endif",
    if2 |-> "elif" ]
\* statements somebody has begun at the end of a template
Tails == { "{%", "{% ", "{% f", "{%- se", "{%- " }
=============================================================================
