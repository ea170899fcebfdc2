----------------------------- MODULE TemplateGen -----------------------------
(***************************************************************************)
(* Templates, built one item at a time.  The state is the template so far  *)
(* and the tags that are still open; every state is a template somebody    *)
(* may have in an editor, with or without the closing tags.                *)
(***************************************************************************)
EXTENDS Files, Docs, Json, CSV, IOUtils, Randomization

CONSTANTS Names,        \* variables
          MaxItems,     \* longest template
          Random,       \* TRUE: simulation, parameters of an action are drawn
          Rich,         \* TRUE: all shapes of tags and expressions
          Env,          \* which other files there are (FilesOf)
          OutFile       \* where complete templates go ("" nowhere)

Files == FilesOf(Env)
Else == Elsewhere(Files)
Others == NamesOf(Else)
Hide == Env = "hidden"

VARIABLES items, open, done
vars == <<items, open, done>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Attrs == {"f", "g"}
\* documented ones and some that aren't
FilterNames == FilterDocs \cup {"upp", "nosuch", "lowercase", "odd", "def"}
TestNames == DOMAIN TestDocs \cup {"in_", "nosuch", "odds", "length", "e"}
AnyOf(S, first) == IF Random THEN RandomElement(S) ELSE first

ExprTrim(toks) == Item("leaf", <<K("{{"), K("-"), K(" ")>> \o toks \o <<K(" "), K("-"), K("}}")>>)
Expr(toks) == Item("leaf", <<K("{{"), K(" ")>> \o toks \o <<K(" "), K("}}")>>)
Tag(op, toks) == Item(op, <<K("{%"), K(" ")>> \o toks \o <<K(" "), K("%}")>>)
TagPlus(op, toks) == Item(op, <<K("{%"), K("+"), K(" ")>> \o toks \o <<K(" "), K("%}")>>)
TagTrim(op, toks) == Item(op, <<K("{%"), K("-"), K(" ")>> \o toks \o <<K(" "), K("-"), K("%}")>>)

\* operands: what can stand where a value is expected
Core(n, m) == { <<V(n)>> }
Operands(n, m) ==
  { <<V(n)>>,
    <<V(n), K("."), F("f")>>,
    <<V(n), K("."), F("f"), K("."), F("g")>>,
    <<V(n), K("["), V(m), K("]")>>,
    <<V(n), K("["), K("0"), K("]"), K("."), L("f")>>,
    <<V(n), K("("), V(m), K(")")>>,
    <<V(n), K("("), N("kw"), K("="), V(m), K(")")>>,
    <<V(n), K("("), V(m), K(", "), N("kw"), K("="), K("1"), K(")"), K("."), L("g")>>,
    <<V(n), K("["), V(m), K(":"), K("1"), K("]")>>,
    <<V(n), K("[1:"), V(m), K("]"), K("."), L("f")>>,
    <<V(n), K("["), N("\"k\""), K("]"), K("["), V(m), K("."), F("f"), K("]")>>,
    <<V(n), K("."), F("f"), K("("), V(m), K("."), F("g"), K(")"), K("."), L("g")>>,
    <<V(n), K("(*"), V(m), K(", **"), V(n), K(")")>>,
    <<V(n), K("("), V(m), K(")("), N("kw"), K(" = "), V(n), K(")")>>,
    <<K("["), V(n), K(", "), V(m), K("]")>>,
    <<K("("), V(n), K(", "), V(m), K(")")>>,
    <<K("({"), N("\"k\""), K(": "), V(n), K(", "), N("'l'"), K(": ["), V(m), K("]})")>>,
    <<K("-"), V(n)>>, <<N("\"}} {{ v\"")>>, <<N("'{% set v = 1 %}'")>>, <<N("'it is v'")>>, <<K("1.5")>>,
    <<K("loop"), K("."), L("f")>>,
    <<K("true")>>, <<K("none")>>, <<K("1")>>, <<N("\"s\"")>> }

Expressions(n, m, k) ==
  LET A == IF Rich THEN CHOOSE x \in Pick(Operands(n, m)) : TRUE ELSE <<V(n)>>
      Fi == Fl(AnyOf(FilterNames, "upper"))
      Ti == Te(AnyOf(TestNames, "odd"))
  IN IF ~Rich THEN { <<V(n)>> }
     ELSE { A,
            A \o <<K(" | "), Fi>>,
            A \o <<K("|"), Fi, K("|"), Fl("lower")>>,
            A \o <<K(" | "), Fl("default"), K("("), V(m), K(") | "), Fl("upper")>>,
            A \o <<K(" + "), V(m)>>,
            A \o <<K(" ~ "), N("\"s\""), K(" ~ "), V(k)>>,
            A \o <<K(" == "), V(m)>>,
            A \o <<K(" "), N("if"), K(" "), V(m), K(" "), N("else"), K(" "), V(k)>>,
            A \o <<K(" "), N("is"), K(" "), Ti>>,
            A \o <<K(" "), N("is"), K(" "), N("not"), K(" "), Te("none"), K(" "), N("and"), K(" "), V(m)>>,
            <<K("not"), K(" ")>> \o A,
            A \o <<K(" "), N("in"), K(" "), V(k)>>,
            A \o <<NL, K("+ "), V(m)>>,
            A \o <<K(" * "), V(m), K(" // "), V(k)>>, A \o <<K(" <= "), V(m)>>,
            A \o <<K(" "), N("not"), K(" "), N("in"), K(" "), V(m)>>,
            A \o <<K(" "), N("is"), K(" "), Ti, K("("), V(m), K(")")>>,
            A \o <<K(" "), N("is"), K(" "), Te("divisibleby"), K(" "), V(m)>>,
            A \o <<K(" "), N("if"), K(" "), V(m)>>,
            <<K("("), V(n), K(" "), N("and"), K(" "), V(m), K(") "), N("or"), K(" "), N("not"), K(" ("), V(k), K(")")>>,
            A \o <<NL, K("| "), Fi, NL, K("("), V(m), K(")")>>,
            <<V(n), K(", "), V(m)>> }

\* conditions of if and elif, keywords are keywords there
Conditions(n, m) ==
  IF ~Rich THEN { <<V(n)>> }
  ELSE { <<V(n)>>, <<V(n), K("."), F("f")>>, <<V(n), K(" == "), N("\"s\"")>>,
         <<V(n), K(" "), N("and"), K(" "), N("not"), K(" "), V(m)>>,
         <<V(n), K(" "), N("is"), K(" "), Te("odd")>>,
         <<V(n), K(" "), N("is"), K(" "), N("not"), K(" "), Te("none"), K(" "), N("or"), K(" "), V(m)>>,
         <<V(n), K(" | "), Fl("length"), K(" > 1")>>,
         <<V(n), K("["), V(m), K(" + "), K("1"), K("] >= "), V(n), K("."), F("g")>>,
         <<K("("), V(n), K(" "), N("or"), K(" "), V(m), K(") "), N("and"), K(" "), N("not"), K(" ("), V(n), K(")")>>,
         <<V(n), K("("), V(m), K(")")>> }

Wide == "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"
Texts == { <<K("x")>>, <<K(Wide), K(Wide), K(Wide)>>, <<NL>>, <<K("<p>")>>, <<K("é")>>, <<K("日"), NL>>, <<K("  "), NL, NL>>, <<K("{# "), K("v"), K(" #}")>>,
           <<K("{# {% set "), N("v"), K(" = 1 %} {{ "), N("w"), K(" }}"), NL, K("{% for "), N("i"), K(" in "), N("v"), K(" %} #}")>>,
           <<K("{#-"), NL, K("{% endfor %}{% include "), K("\"gone\""), K(" %}"), NL, K("-#}")>>, <<K("{ { "), N("v"), K(" } }")>> }

Init == items = <<>> /\ open = <<>> /\ done = FALSE

Room == ~done /\ Len(items) < MaxItems

\* A tag or expression may be spread over lines, and spaced as one likes.
Gap(t, c) == CASE c = 0 -> <<t>>
               [] t.t = " " -> IF c = 1 THEN <<NL>> ELSE <<K("  ")>>
               [] t.t = ", " -> IF c = 1 THEN <<K(","), NL>> ELSE <<K(" ,"), K("\t")>>
               [] OTHER -> <<t>>
\* or without any spaces around what's between the delimiters
Tight(item) ==
  LET ts == item.toks
      n == Len(ts)
      dash == IF ts[2].t \in {"-", "+"} THEN 1 ELSE 0
      first == dash + 2
      last == IF ts[n - 1].t = "-" THEN n - 2 ELSE n - 1
      drop == {i \in {first, last} : ts[i].t = " "
                 /\ ~ (\E j \in {i - 1, i + 1} : (ts[j].w = 0 \/ ts[j].r = "nl"))
                 /\ (i = first => ts[i + 1].t \notin {"-", "({"})
                 /\ (i = last => ts[i - 1].r \in {"var", "filter", "test", "field", "loose"})}
  IN IF n < 5 THEN item ELSE [item EXCEPT !.toks = FlattenSeq([i \in 1..n |-> IF i \in drop THEN <<>> ELSE <<ts[i]>>])]
Spread(item, k) ==
  IF k = 6 /\ item.toks[1].t \in {"{{", "{%"} THEN Tight(item) ELSE
  IF k % 3 = 0 \/ item.toks[1].t \notin {"{{", "{%"} THEN item
  ELSE [item EXCEPT !.toks = FlattenSeq([i \in 1..Len(@) |-> Gap(@[i], (i * k) % 3)])]
Spreads == IF Random THEN 0..6 ELSE {0}

Add(item) == \E k \in Pick(Spreads) : items' = Append(items, Spread(item, k)) /\ UNCHANGED <<open, done>>
Open(kind, item) == \E k \in Pick(Spreads) : items' = Append(items, Spread(item, k)) /\ open' = Append(open, kind) /\ UNCHANGED done

T(op, toks) == IF Rich THEN {Tag(op, toks), Tag(op, toks), TagTrim(op, toks), TagPlus(op, toks)} ELSE {Tag(op, toks)}

AddText == Rich /\ Room /\ \E t \in Pick(Texts) : Add(Item("leaf", t))

AddExpr == Room /\ \E n \in Pick(Names), m \in Pick(Names), k \in Pick(Names) : \E e \in Pick(Expressions(n, m, k)) :
  \E i \in Pick({Expr(e)} \cup IF Rich THEN {ExprTrim(e), Item("leaf", <<K("{{")>> \o e \o <<K("}}")>>)} ELSE {}) : Add(i)

AddSet == Room /\ \E n \in Pick(Names), m \in Pick(Names), k \in Pick(Names) :
  \E v \in Pick(IF Rich THEN { <<K("1")>>, <<V(m)>>, <<V(m), K(" | "), Fl("upper")>>,
                               <<V(m), K(" "), N("if"), K(" "), V(k), K(" "), N("else"), K(" "), K("1")>>,
                               <<V(m), K("."), F("f"), K(" == "), V(k)>> }
                ELSE { <<V(m)>> }) :
  \* several names at once, and attributes of what's there
  \E h \in Pick({ <<D(n, "set")>> } \cup
                IF Rich THEN { <<D(n, "set"), K(", "), D(m, "set")>>, <<K("("), D(n, "set"), K(", "), D(k, "set"), K(")")>>,
                               <<D(n, "set"), K(", "), D(m, "set"), K(", "), D(k, "set")>>,
                               <<V(n), K("."), F("f")>>, <<D(n, "set")>>, <<D(n, "set")>> } ELSE {}) :
  \E i \in Pick(T("leaf", <<K("set"), K(" ")>> \o h \o <<K(" = ")>> \o v)) : Add(i)

OpenFor == Room /\ \E n \in Pick(Names), m \in Pick(Names), k \in Pick(Names) :
  \E h \in Pick({ <<D(n, "for_key"), K(" "), N("in"), K(" "), V(m)>> } \cup
                IF Rich THEN { <<D(n, "for_key"), K(" "), N("in"), K(" "), V(m), K("."), F("f"), K(" | "), Fl("sort")>>,
                               <<D(n, "for_key"), K(", "), D(m, "for_value"), K(" "), N("in"), K(" "), V(k)>>,
                               <<K("("), D(n, "for_key"), K(", "), D(m, "for_value"), K(") "), K("in"), K(" "), V(k)>>,
                               <<D(n, "for_key"), K(", "), D(m, "for_value"), K(", "), D(k, "for_value"), K(" "), N("in"), K(" "), V(n)>>,
                               <<D(n, "for_key"), K(", "), K("("), D(m, "for_value"), K(", "), D(k, "for_value"), K(")"), K(" "), N("in"), K(" "), V(n)>>,
                               <<D(n, "for_key"), K(" "), N("in"), K(" "), V(m), K(", "), V(k)>>,
                               <<D(n, "for_key"), K(" "), N("in"), K(" "), V(m), K(" "), N("if"), K(" "), V(k)>>,
                               <<D(n, "for_key"), K(" "), N("in"), K(" "), K("10")>> } ELSE {}) :
  \E x \in Pick(IF Rich THEN {<<>>, <<K(" "), N("recursive")>>} ELSE {<<>>}) :
  \E i \in Pick(T("open", <<K("for"), K(" ")>> \o h \o x)) : Open("for", i)

OpenWith == Room /\ \E n \in Pick(Names), m \in Pick(Names), k \in Pick(Names) :
  \E h \in Pick({ <<K(" "), D(n, "with"), K(" = "), V(m)>> } \cup
                IF Rich THEN { <<>>, <<K(" "), D(n, "with"), K("="), K("1"), K(", "), D(m, "with"), K(" = "), V(k), K("."), F("f")>>,
                               <<K(" "), D(n, "with"), K(" = "), V(m), K("("), V(k), K(", "), N("kw"), K("="), K("1"), K("), "), D(k, "with"), K(" = "), K("[1, "), V(m), K("]")>>,
                               <<K(" "), D(n, "with"), K(" = "), V(m), K(" == "), V(k)>> } ELSE {}) :
  \E i \in Pick(T("open", <<K("with")>> \o h)) : Open("with", i)

OpenMacro == Room /\ \E n \in Pick(Names), m \in Pick(Names), k \in Pick(Names) :
  \E h \in Pick({ <<K("("), D(m, "param"), K(")")>> } \cup
                IF Rich THEN { <<K("()")>>, <<K("("), D(m, "param"), K(", "), D(k, "param"), K(")")>>,
                               <<K("("), D(m, "param"), K(", "), D(k, "param"), K("="), K("1"), K(")")>>,
                               <<K("("), D(m, "param"), K("="), V(k), K("("), V(n), K(", "), N("kw"), K("="), V(n), K(")"), K(", "), D(n, "param"), K(")")>>,
                               <<K("("), D(m, "param"), K("=["), V(k), K(", "), V(n), K("]"), K(", "), D(n, "param"), K("="), K("1"), K(")")>>,
                               <<K("("), D(m, "param"), K("="), V(k), K(")")>> } ELSE {}) :
  \E i \in Pick(T("open", <<K("macro"), K(" "), D(n, "macro")>> \o h)) : Open("macro", i)

\* a call with contents, which may have parameters, and some of them defaults
OpenCall == Rich /\ Room /\ \E n \in Pick(Names), m \in Pick(Names), k \in Pick(Names) :
  \E h \in Pick({ <<K(" ")>>, <<K("() ")>>, <<K("("), D(m, "param"), K(")"), K(" ")>>,
                  <<K("("), D(m, "param"), K(", "), D(k, "param"), K("="), V(n), K(")"), K(" ")>>,
                  <<K(" "), K("("), D(m, "param"), K("="), K("[1, "), V(k), K("]"), K(", "), D(k, "param"), K(")"), K(" ")>> }) :
  \E a \in Pick({ <<K("()")>>, <<K("("), V(k), K(")")>>, <<K("."), F("f"), K("("), K("1"), K(", "), N("kw"), K("="), V(m), K(")")>> }) :
  \E i \in Pick(T("open", <<K("call")>> \o h \o <<V(n)>> \o a)) : Open("call", i)

OpenBlock == Room /\ \E n \in Pick(Names) :
  \E x \in Pick(IF Rich THEN {<<>>, <<K(" "), N("scoped")>>, <<K(" "), N("required")>>, <<K(" "), N("scoped"), K(" "), N("required")>>} ELSE {<<>>}) :
  \E i \in Pick(T("open", <<K("block"), K(" "), D(n, "block")>> \o x)) : Open("block", i)

OpenIf == Room /\ \E n \in Pick(Names), m \in Pick(Names) : \E c \in Pick(Conditions(n, m)) :
  \E i \in Pick(T("open", <<K("if"), K(" ")>> \o c)) : Open("if", i)

OpenOther == Rich /\ Room /\
  \/ \E n \in Pick(Names) : \E h \in Pick({K("true"), K("false"), V(n)}) : \E i \in Pick(T("open", <<K("autoescape"), K(" "), h>>)) : Open("autoescape", i)
  \* a translation has variables of its own
  \/ \E n \in Pick(Names), m \in Pick(Names), k \in Pick(Names) :
     \E h \in Pick({ <<>>, <<D(n, "with"), K("="), V(m)>>, <<D(n, "with"), K("="), V(m), K("."), F("f"), K(", "), D(k, "with"), K(" = "), V(n), K(" | "), Fl("upper")>>,
                     <<V(n), K(", "), D(m, "with"), K("="), V(k), K("("), N("kw"), K("="), V(n), K(")")>>, <<V(n)>> }) :
     \E w \in Pick({ <<>>, <<K(" "), N("trimmed")>>, <<K(" "), N("notrimmed")>> }) :
     \E i \in Pick(T("open", <<K("trans")>> \o w \o (IF h = <<>> THEN <<>> ELSE <<K(" ")>> \o h))) : Open("trans", i)
  \* the contents of a filter block go through filters
  \/ \E m \in Pick(Names) : \E f \in Pick(FilterNames) :
     \E h \in Pick({ <<Fl(f)>>, <<Fl("default"), K("("), V(m), K(", "), N("kw"), K("="), V(m), K(")")>>,
                     <<Fl("replace"), K("("), N("\"s\""), K(", "), V(m), K(") | "), Fl(f)>>, <<Fl(f), K(" | "), Fl("upper"), K("()")>> }) :
     \E i \in Pick(T("open", <<K("filter"), K(" ")>> \o h)) : Open("filter", i)

\* tags that come in pairs but don't hold on to what is defined inside
OpenPlain == Rich /\ Room /\ \E n \in Pick(Names) :
\E m \in Pick(Names) : \E f \in Pick(FilterNames) :
  \E x \in Pick({ <<>>, <<>>, <<K(" | "), Fl(f)>>, <<K(" | "), Fl("replace"), K("("), V(m), K(", "), N("kw"), K("="), V(n), K(")")>> }) :
     Open("set", Tag("leaf", <<K("set"), K(" "), D(n, "set")>> \o x))

\* Places to complete at; what's written there is still fine.
HoleItems(n, m) ==
  { Expr(<<H("vars")>>),
    Expr(<<V(n), K(" + "), H("vars"), K(" ")>>),
    Expr(<<V(n), K("("), V(m), K(", "), H("vars"), K(")")>>),
    Expr(<<V(n), K("["), H("vars"), K(" ]")>>),
    Expr(<<V(n), K(" | "), Fl("upper"), K(" "), H("vars")>>),
    Expr(<<V(n), NL, K("+ "), H("vars")>>),
    Expr(<<N("\"s\""), K(" ~ "), H("vars"), K(" ")>>),
    Expr(<<V(n), K(" | "), H("filters"), Fl("upper")>>),
    Expr(<<V(n), K("|"), H("filters"), Fl("lower"), K("|"), H("filters"), Fl("upper")>>),
    Expr(<<V(n), K(" | "), H("filters")>>),
    Expr(<<V(n), K("("), V(m), K(") | "), H("filters"), Fl("sort")>>),
    Expr(<<V(n), K(" "), N("is"), H("tests"), K(" "), H("tests"), K(" "), Te("odd")>>),
    Expr(<<V(n), K(" "), N("is"), K(" "), N("not"), H("tests"), K("  "), Te("none")>>),
    Tag("leaf", <<K("set"), H("none"), K(" "), D(n, "set"), K(" = "), V(m), K(" | "), H("filters"), Fl("abs")>>),
    Tag("leaf", <<K("set"), K(" "), D(n, "set"), H("none"), K(" = "), V(m), K(" "), N("is"), H("tests"), K(" "), Te("odd"), H("none")>>),
    Item("leaf", <<K("ab"), H("none"), K("c | "), H("none"), K("is "), H("none"), K("x"), NL, H("none"), K("y")>>),
    Item("leaf", <<K("{# "), H("none"), K("v | x "), H("none"), K(" #}"), H("none"), K("é"), H("none"), K("e")>>),
    Item("leaf", <<H("none"), K("<p>")>>) }
HoleConditions(n, m) ==
  { <<V(n), K(" "), N("is"), H("tests"), K(" "), H("tests"), K(" "), Te("odd")>>,
    <<V(n), K(" "), N("is"), K(" "), N("not"), H("tests"), K("  "), Te("none"), K(" "), N("or"), H("none"), K(" "), V(m)>>,
    <<V(n), K(" | "), H("filters"), Fl("length"), K(" > 1")>>,
    <<V(n), H("none"), K(" "), H("none"), K("and"), K(" "), V(m)>> }
AddHole == Rich /\ Room /\ \E n \in Pick(Names), m \in Pick(Names) :
  \/ \E i \in Pick(HoleItems(n, m)) : Add(i)
  \/ \E c \in Pick(HoleConditions(n, m)) : Open("if", Tag("open", <<K("if"), K(" ")>> \o c))

\* what else is said about an inclusion isn't a variable, unless it has that name
Words == {"context", "missing", "ignore", "without", "scoped", "required", "recursive"}
AddInclude == Rich /\ Room /\ \E n \in Pick(Names), m \in Pick(Names) : \E w \in Pick(Words) :
  \E h \in Pick({ <<V(n)>>, <<V(w)>>, <<K("["), V(n), K(", "), V(m), K("]")>>, <<V(n), K(" | "), Fl("upper")>> }) :
  \E x \in Pick({ <<>>, <<K(" "), N("ignore"), K(" "), N("missing")>>, <<K(" "), K("with"), K(" "), N("context")>>,
                  <<K(" "), N("ignore"), K(" "), N("missing"), K(" "), N("without"), K(" "), N("context")>> }) :
     \/ \E i \in Pick(T("leaf", <<K("include"), K(" ")>> \o h \o x)) : Add(i)
     \/ Add(Expr(<<V(w), K(" ~ "), V(n)>>))
     \/ Add(Tag("leaf", <<K("set"), K(" "), D(w, "set"), K(" = "), V(n)>>))

\* modules and what they have, under the names they get here; the ones they have there are nothing
Sources(n) == {<<V(n)>>, <<V(n), K("."), F("f")>>} \cup IF Env \in {"templates", "mixed", "hidden"} THEN {<<K("\"other.jinja\"")>>, <<K("'sub/other.jinja'")>>} ELSE {}
AddImport == Rich /\ Room /\ \E n \in Pick(Names), m \in Pick(Names), k \in Pick(Names) : \E w \in Pick(Words \cup Names) : \E s \in Pick(Sources(m)) :
  \E x \in Pick({ <<>>, <<K(" "), N("with"), K(" "), N("context")>>, <<K(" "), N("without"), K(" "), N("context")>> }) :
  \E h \in Pick({ <<K("import"), K(" ")>> \o s \o <<K(" "), N("as"), K(" "), D(n, "set")>> } \cup
     { <<K("from"), K(" ")>> \o s \o <<K(" "), N("import"), K(" ")>> \o l :
         l \in { <<D(n, "set")>>, <<D(n, "set"), K(", "), D(k, "set")>>, <<N(w), K(" "), N("as"), K(" "), D(n, "set")>>,
                 <<N(w), K(" "), N("as"), K(" "), D(n, "set"), K(", "), D(k, "set")>>,
                 <<D(n, "set"), K(", "), N(w), K(" "), N("as"), K(" "), D(k, "set")>> } }) :
  \E i \in Pick(T("leaf", h \o x)) : Add(i)

\* whatever stands in it is text
AddRaw == Rich /\ Room /\ \E n \in Pick(Names), m \in Pick(Names) :
  LET S(toks) == <<K("{%"), K(" ")>> \o toks \o <<K(" "), K("%}")>>
      E(toks) == <<K("{{"), K(" ")>> \o toks \o <<K(" "), K("}}")>> IN
  LET inside == { E(<<N(n)>>), E(<<N(n), K("."), N(m), K(" | "), H("none"), N("upper")>>), E(<<H("none"), K(" "), N(n)>>), E(<<N(n), K(" is "), H("none"), N("odd")>>),
                     S(<<K("set "), N(n), K(" = "), N(m)>>), S(<<K("for "), N(n), K(" in "), N(m)>>), S(<<K("endfor")>>), S(<<K("if "), N(n)>>), S(<<K("else")>>), S(<<K("endif")>>),
                     S(<<K("block "), N(n)>>), S(<<K("raw")>>), S(<<K("include "), K("\"gone\"")>>), S(<<K("import "), K("\"gone\""), K(" as "), N(n)>>), S(<<K("endwith")>>),
                     <<NL, K("x "), H("none")>>, <<K("é")>> } IN
  \E a \in Pick(inside), b \in Pick(inside) :
  \E d \in Pick({<<K("raw"), K(" ")>>, <<K("raw"), K(" -")>>}) :
     Add(Item("leaf", <<K("{%"), K(" ")>> \o d \o <<K("%}")>> \o a \o b \o S(<<K("endraw")>>)))

AddDo == Rich /\ Room /\ \E n \in Pick(Names) :
  \E h \in Pick({ <<K("do"), K(" "), V(n), K("."), F("f"), K("()")>>, <<N("break")>>, <<N("continue")>>, <<K("debug")>>, <<K("extends"), K(" "), V(n)>>,
                  <<K("pluralize")>> }) :
  \E i \in Pick(T("leaf", h)) : Add(i)

Branch == Room /\ open # <<>> /\ open[Len(open)] \in {"if", "for"} /\
  \/ Add(Tag("branch", <<K("else")>>))
  \/ open[Len(open)] = "if" /\ \E n \in Pick(Names), m \in Pick(Names) : \E c \in Pick(Conditions(n, m)) :
        Add(Tag("branch", <<K("elif"), K(" ")>> \o c))

Plain == {"set"}
Close == Room /\ open # <<>> /\
  LET kind == open[Len(open)] IN
  \* the end of a block may say which one
  \E n \in Pick(IF Rich /\ kind = "block" THEN Names \cup {""} ELSE {""}) :
  \E i \in Pick(T(IF kind \in Plain THEN "leaf" ELSE "close",
                  IF n = "" THEN <<K("end" \o kind)>> ELSE <<K("end" \o kind), K(" "), K(n)>>)) :
     items' = Append(items, i) /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED done

Finish == ~done /\ items # <<>> /\ (Random => Len(items) >= MaxItems) /\ done' = TRUE /\ UNCHANGED <<items, open>>

\* every documented filter and test once, and what looks like one
EachDoc == ~Random /\ ~done /\ items = <<>> /\
  \E d \in {<<K(" | "), Fl(f)>> : f \in FilterNames} \cup {<<K(" "), N("is"), K(" "), Te(x)>> : x \in TestNames} :
     items' = <<Expr(<<V("v")>> \o d)>> /\ done' = TRUE /\ UNCHANGED open

Next == \/ EachDoc \/ AddText \/ AddExpr \/ AddExpr \/ AddSet \/ OpenFor \/ OpenWith \/ OpenMacro \/ OpenBlock \/ OpenIf
        \/ OpenOther \/ OpenCall \/ OpenPlain \/ AddHole \/ AddDo \/ AddInclude \/ AddImport \/ AddRaw \/ Branch \/ Close \/ Close \/ Close \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* The LET keeps TLC from analysing the template once per property.
Sound ==
  LET a == Analyse(items) IN
    /\ ReadingsAgree(a) /\ Nested(a) /\ Ordered(a) /\ SelfFound(a)
    /\ DiagnosedIffUnreachable(a) /\ CompletableIffDefined(a)
    /\ HidingHides(a) /\ MoreFilesMoreInformed(a, Others)

(* --------------------------- test cases out ---------------------------- *)
\* what the server has to say about a complete template
Case ==
  LET a == Analyse(items) IN
  [ env     |-> Env,
    files   |-> FileTexts(Files),
    else    |-> Else,
    text    |-> a.txt,
    open    |-> Len(open),
    symbols |-> Symbols(a),
    uses    |-> [i \in 1..Len(a.uses) |->
                  LET u == a.uses[i] IN
                  [ s |-> u.s, e |-> u.e, n |-> u.n, r |-> u.r, d |-> u.d,
                    diag  |-> Diagnosis(a, u, Others, Hide),
                    root  |-> u.root,
                    goto  |-> Target(a, u),
                    hover |-> IF \/ u.r = "filter" /\ u.n \notin FilterDocs
                                 \/ u.r = "test" /\ u.n \notin DOMAIN TestDocs
                              THEN "none" ELSE Hover(a, u, Others),
                    bare  |-> Completable(u),
                    visible |-> {[n |-> d.n, k |-> d.k, s |-> d.s] : d \in VisibleAt(a, u.s, u.sc)} ]],
    tails   |-> {[ text |-> a.txt \o t, at |-> a.pt + Len(t) ] : t \in Pick(Tails)},
    holes   |-> {[ at |-> h.at, ctx |-> h.ctx,
                   visible |-> {[n |-> d.n, k |-> d.k, s |-> d.s] : d \in VisibleAt(a, h.at, h.sc)} ] : h \in Range(a.holes)} ]

\* the lists of completion and the words of their documentation, once
Lists == [ filters  |-> [n \in FilterDocs |-> FilterWords(n)],
           tests    |-> TestDocs,
           snippets |-> Snippets ]
ASSUME OutFile # "" => CSVWrite("%1$s", <<ToJson(Lists)>>, OutFile)

Emit == (done /\ OutFile # "") => CSVWrite("%1$s", <<ToJson(Case)>>, OutFile)
=============================================================================
