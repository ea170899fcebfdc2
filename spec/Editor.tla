-------------------------------- MODULE Editor --------------------------------
(***************************************************************************)
(* Somebody types a statement into a template, key by key, with an editor  *)
(* that closes brackets and strings by itself, asks for completion when a  *)
(* key is one the server wants to hear of or part of a name, and accepts   *)
(* some of what is offered.  The text it leads to is the one intended.     *)
(***************************************************************************)
EXTENDS Refs, Docs, Json, CSV, IOUtils

CONSTANTS Modes,      \* editors: "pairs" closes everything, "braces" only those, "none" nothing
          OutFile

VARIABLES mode, frame, scene,     \* chosen at the start
          accept,                 \* is what is typed accepted when it's offered, and after how many keys
          i, k,                   \* the token being typed and how much of it
          pre, post, pt,          \* the text around the cursor, its place
          log, done
vars == <<mode, frame, scene, accept, i, k, pre, post, pt, log, done>>


Tree == {"base.html", "sub/base.jinja", "b c.html", "notes.txt"}

(* ------------------------------- surroundings -------------------------- *)
T_(op, toks) == Item(op, <<K("{%"), K(" ")>> \o toks \o <<K(" "), K("%}")>>)
Set(n) == T_("leaf", <<K("set"), K(" "), D(n, "set"), K(" = "), K("1")>>)
Text(t) == Item("leaf", <<X(t)>>)
Line == Item("leaf", <<NL>>)
EndFor == T_("close", <<K("endfor")>>)
Frames ==
  { [before |-> <<>>, after |-> <<>>],
    [before |-> <<Set("p"), Line, Text("é "), Set("pq")>>, after |-> <<>>],
    [before |-> <<Set("p"), Line>>, after |-> <<Line, Text("<p>"), Line, Set("zed")>>],
    [before |-> <<Set("q"), T_("open", <<K("for"), K(" "), D("p", "for_key"), K(", "), D("pq", "for_value"), K(" "), K("in"), K(" "), V("q")>>)>>,
     after |-> <<EndFor, Line, Set("r")>>],
    [before |-> <<T_("open", <<K("macro"), K(" "), D("q", "macro"), K("("), D("p", "param"), K(")")>>), Line, Text("日本 ")>>,
     after |-> <<T_("close", <<K("endmacro")>>)>>],
    [before |-> <<T_("open", <<K("with"), K(" "), D("p", "with"), K(" = "), K("1")>>), T_("close", <<K("endwith")>>), Set("q"), Text(" 𝄞"), Line, Text("  ")>>,
     after |-> <<Text(" x")>>],
    [before |-> <<Text("é"), T_("open", <<K("block"), K(" "), D("r", "block")>>), Line, Set("zed"), T_("close", <<K("endblock")>>), Line, Text("  x ")>>, after |-> <<>>],
    [before |-> <<T_("open", <<K("block"), K(" "), D("r", "block")>>), Set("p"), T_("open", <<K("if"), K(" "), V("p")>>)>>,
     after |-> <<T_("branch", <<K("else")>>), T_("close", <<K("endif")>>), T_("close", <<K("endblock")>>)>>] }

(* -------------------------------- scenes ------------------------------- *)
\* What is typed: the tokens of one item.
E_(toks) == [kind |-> "tag", item |-> Item("leaf", <<K("{{"), K(" ")>> \o toks \o <<K(" "), K("}}")>>)]
S_(toks) == [kind |-> "tag", item |-> T_("leaf", toks)]
VarNames == {"p", "pq", "q", "r", "zed"}
Scenes ==
  UNION { { E_(<<V(n)>>), E_(<<V(n), K(" | "), Fl(f)>>), E_(<<V(n), K(" "), K("is"), K(" "), Te(t)>>),
            E_(<<V(n), K("."), F("f"), K(" | "), Fl(f), K(" | "), Fl("title")>>),
            E_(<<V(n), K(" ~ "), V("q")>>),
            S_(<<K("set"), K(" "), D("w", "set"), K(" = "), V(n), K(" | "), Fl(f)>>),
            S_(<<K("include"), K(" "), Ref("\"", l)>>), S_(<<K("extends"), K(" "), Ref("\"", l)>>),
            S_(<<K("import"), K(" "), Ref("\"", l), K(" "), K("as"), K(" "), D("m", "set")>>),
            S_(<<K("from"), K(" "), Ref("\"", l), K(" "), K("import"), K(" "), D("m", "set")>>) }
        : n \in VarNames, f \in {"upper", "abs", "dictsort"}, t \in {"odd", "defined", "sameas"},
          l \in Tree \ {"notes.txt"} }

\* What a snippet leads to, once its blanks are filled in: the items, and what is filled in.
SnippetOf(s) ==
  CASE s = "for1" -> [fill |-> <<>>, items |-> <<T_("open", <<K("for"), K(" "), D("i", "for_key"), K(" in "), V("items")>>), Line, EndFor>>]
    [] s = "for2" -> [fill |-> <<>>, items |-> <<T_("open", <<K("for ("), D("key", "for_key"), K(", "), D("value", "for_value"), K(") in "), V("items")>>), Line, EndFor>>]
    [] s = "with" -> [fill |-> <<"w = 1">>, items |-> <<T_("open", <<K("with "), D("w", "with"), K(" = 1")>>), Line, T_("close", <<K("endwith")>>)>>]
    [] s = "set1" -> [fill |-> <<>>, items |-> <<T_("leaf", <<K("set "), D("key", "set"), K(" = "), V("value")>>)>>]
    [] s = "set2" -> [fill |-> <<>>, items |-> <<T_("open", <<K("set "), D("data", "set")>>), Line, T_("close", <<K("endset")>>)>>]
    [] s = "include" -> [fill |-> <<"base.html">>, items |-> <<T_("leaf", <<K("include "), Ref("\"", "base.html")>>)>>]
    [] s = "from" -> [fill |-> <<"nope.html">>, items |-> <<T_("leaf", <<K("from "), Ref("\"", "nope.html"), K(" import "), D("module", "set")>>)>>]
    [] s = "import" -> [fill |-> <<"sub/base.jinja">>, items |-> <<T_("leaf", <<K("import "), Ref("\"", "sub/base.jinja"), K(" as "), D("module", "set")>>)>>]
    [] s = "extends" -> [fill |-> <<"base.html">>, items |-> <<T_("leaf", <<K("extends "), Ref("\"", "base.html")>>)>>]
    [] s = "if1" -> [fill |-> <<"zed">>, items |-> <<T_("open", <<K("if "), V("zed")>>), Line, T_("close", <<K("endif")>>)>>]
    [] s = "if2" -> [fill |-> <<"zed", "p">>, items |-> <<T_("open", <<K("if "), V("zed")>>), Line, T_("branch", <<K("elif "), V("p")>>), Line, T_("close", <<K("endif")>>)>>]
SnippetScenes == {[kind |-> "snippet", name |-> s, begin |-> b] : s \in DOMAIN Snippets, b \in {"{%", "{%-", "{% "}}

(* -------------------------------- editor ------------------------------- *)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
First(s) == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)
Rest(s) == SubSeq(s, 2, Len(s))
Closer(c) ==
  CASE mode = "none" -> ""
    [] c = "{" -> "}"
    [] mode = "braces" -> ""
    [] c = "\"" -> "\""
    [] c = "%" /\ EndsWith(pre, "{") /\ First(post) = "}" -> "%"
    [] OTHER -> ""
\* a closing key moves over what the editor has closed already
Over(c) == c \in {"}", "%", "\""} /\ mode # "none" /\ First(post) = c

Press(c) ==
  IF Over(c) THEN /\ post' = Rest(post) /\ UNCHANGED <<>> /\ pre' = pre \o c /\ pt' = pt + 1
  ELSE pre' = pre \o c /\ post' = Closer(c) \o post /\ pt' = pt + 1

Toks == scene.item.toks
Tok == Toks[i]
FirstVar == IF Toks[1].t = "{{" /\ Toks[3].r = "var" THEN 3 ELSE 0
\* what is to be offered with the cursor in front of character k of a token
Due(j, n) ==
  LET t == Toks[j] IN
  CASE t.r = "var" /\ j = FirstVar -> IF n = 0 THEN "var" ELSE "begun"
    [] t.r = "filter" /\ n = 0 -> "filter"
    [] t.r = "test" /\ n = 0 -> "test"
    [] t.r = "ref" /\ n >= 1 /\ n < Len(t.t) -> "name"
    [] OTHER -> ""

\* the template as it is with a place instead of the rest of the item
Unfinished(j) == frame.before \o <<Item("leaf", SubSeq(Toks, 1, j - 1) \o <<H("var"), K("}}")>>)>> \o frame.after
Wanted(j, n, at) ==
  LET due == Due(j, n)  t == Toks[j]  a == Analyse(Unfinished(j))  h == a.holes[1] IN
  CASE due = "var" -> {d.n : d \in VisibleAt(a, h.at, h.sc)}
    [] due = "begun" -> {d.n : d \in {x \in VisibleAt(a, h.at, h.sc) : Starts(x.n, SubSeq(t.t, 1, n))}}
    [] due = "filter" -> FilterDocs
    [] due = "test" -> DOMAIN TestDocs
    [] due = "name" -> Offered(SubSeq(t.n, 1, n - 1), Tree)
    [] OTHER -> {}

Init ==
  \E m \in Modes, f \in Frames :
    /\ mode = m /\ frame = f
    /\ \E s \in (CASE m = "pairs" -> Scenes
                       [] m = "braces" -> {x \in Scenes : x.item.toks[1].t = "{{"} \cup (IF f.after = <<>> THEN SnippetScenes ELSE {})
                       [] m = "none" -> IF f.after = <<>> THEN SnippetScenes ELSE {}) : scene = s
    /\ accept \in 0..4
    /\ i = 1 /\ k = 0
    /\ LET a == Analyse(f.before) IN pre = a.txt /\ pt = a.pt
    /\ LET a == Analyse(f.before \o f.after)  n == Len(Analyse(f.before).txt) IN
         /\ post = SubSeq(a.txt, n + 1, Len(a.txt))
         /\ log = <<[op |-> "open", text |-> a.txt, at |-> Analyse(f.before).pt]>>
    /\ done = FALSE

(* a tag *)
Offer(j, n) == IF Due(j, n) = "" THEN [due |-> ""]
               ELSE [due |-> Due(j, n), names |-> Wanted(j, n, pt), word |-> IF Due(j, n) = "begun" THEN n ELSE 0, whole |-> Len(Toks[j].t)]
\* can what is being typed be accepted now?
Acceptable == Due(i, k) # "" /\ k - (IF Tok.r = "ref" THEN 1 ELSE 0) = accept /\ Tok.n \in Wanted(i, k, pt)

TypeKey ==
  /\ scene.kind = "tag" /\ i <= Len(Toks) /\ ~Acceptable
  /\ LET c == SubSeq(Tok.t, k + 1, k + 1)
         ends == k + 1 = Len(Tok.t)
         j == IF ends /\ i < Len(Toks) THEN i + 1 ELSE i
         n == IF ends /\ i < Len(Toks) THEN 0 ELSE k + 1
         \* at the end of a name it can be completed still
         o == IF ends /\ Due(i, k + 1) # "" THEN Offer(i, k + 1) ELSE Offer(j, n)
     IN /\ Press(c)
        /\ log' = Append(log, [op |-> "key", key |-> c, at |-> pt, sent |-> IF Over(c) THEN "" ELSE c \o Closer(c), offer |-> o])
        /\ IF ends THEN i' = i + 1 /\ k' = 0 ELSE i' = i /\ k' = k + 1
  /\ UNCHANGED <<mode, frame, scene, accept, done>>
Accept ==
  /\ scene.kind = "tag" /\ i <= Len(Toks) /\ Acceptable
  /\ pre' = SubSeq(pre, 1, Len(pre) - k) \o Tok.t
  \* a string is replaced with its quotes
  /\ post' = IF Tok.r = "ref" THEN Rest(post) ELSE post
  /\ pt' = pt - k + Tok.w
  /\ i' = i + 1 /\ k' = 0
  /\ log' = Append(log, [op |-> "accept", label |-> Tok.n, at |-> pt, to |-> pt - k + Tok.w])
  /\ UNCHANGED <<mode, frame, scene, accept, done>>
Finish ==
  /\ scene.kind = "tag" /\ i > Len(Toks) /\ ~done /\ done' = TRUE
  /\ LET a == Analyse(frame.before \o <<scene.item>> \o frame.after) IN
       log' = Append(log, [op |-> "end", text |-> a.txt, symbols |-> Symbols(a),
                           diags |-> Diagnostics(a, {}, FALSE) \cup
                             {[s |-> r.s, e |-> r.e, m |-> "missing"] : r \in {x \in Range(RefsOf(frame.before \o <<scene.item>> \o frame.after)) : Missing(x.n, Tree)}}])
  /\ UNCHANGED <<mode, frame, scene, accept, i, k, pre, post, pt>>

(* a snippet *)
Begin ==
  /\ scene.kind = "snippet" /\ k < Len(scene.begin)
  /\ LET c == SubSeq(scene.begin, k + 1, k + 1) IN
       /\ Press(c)
       /\ log' = Append(log, [op |-> "key", key |-> c, at |-> pt, sent |-> c \o Closer(c),
                              offer |-> IF k + 1 >= 2 THEN [due |-> "snippet", names |-> DOMAIN Snippets, word |-> 0, whole |-> 0] ELSE [due |-> ""]])
  /\ k' = k + 1
  /\ UNCHANGED <<mode, frame, scene, accept, i, done>>
Insert ==
  /\ scene.kind = "snippet" /\ k = Len(scene.begin) /\ ~done /\ done' = TRUE
  /\ LET s == SnippetOf(scene.name)
         a == Analyse(frame.before \o s.items)
         d == Diagnostics(a, {}, FALSE)
         missing == {r \in Range(RefsOf(s.items)) : Missing(r.n, Tree)}
     IN log' = Append(log, [op |-> "snippet", label |-> scene.name, at |-> pt, fill |-> s.fill,
                            symbols |-> {[n |-> x.n, k |-> x.k, s |-> x.s] : x \in Symbols(a)},
                            undefined |-> Cardinality({x \in d : x.m = "undefined"}), missing |-> Cardinality(missing)])
  /\ UNCHANGED <<mode, frame, scene, accept, i, k, pre, post, pt>>

Next == TypeKey \/ Accept \/ Finish \/ Begin \/ Insert
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* What was meant is what is there, whatever the editor does by itself and whatever is accepted.
Intended == (done /\ scene.kind = "tag") => pre \o post = Analyse(frame.before \o <<scene.item>> \o frame.after).txt
\* What is being typed is offered as long as it can be the name of something in reach.
OfferedOrUnknown ==
  scene.kind = "tag" /\ i <= Len(Toks) /\ Due(i, k) \in {"filter", "test", "name"} => Tok.n \in Wanted(i, k, pt)
\* Typing on narrows what is offered.
Narrows ==
  scene.kind = "tag" /\ i <= Len(Toks) /\ k > 1 /\ Due(i, k) \in {"begun", "name"} /\ Due(i, k - 1) = Due(i, k)
    => Wanted(i, k, pt) \subseteq Wanted(i, k - 1, pt)
Emit == (done /\ OutFile # "") => CSVWrite("%1$s", <<ToJson([mode |-> mode, log |-> log])>>, OutFile)
=============================================================================
