------------------------------- MODULE RefGen -------------------------------
(***************************************************************************)
(* Documents with references to templates, next to a template directory.  *)
(***************************************************************************)
EXTENDS Refs, Json, CSV, IOUtils, Randomization

CONSTANTS Lang,       \* "template", "rust", "python"
          MaxItems, Random, OutFile

VARIABLES items, tree, done
vars == <<items, tree, done>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Paths == { "base.html", "a b.html", "sub/m.html", "sub/deep/x.jinja", "ü.html", "日本.j2", "100%.html", "it's.html",
           "notes.txt", "sub/base.html", "v1.2.html", "#q?.html", "base.html.jinja", "html", "deep/1/2/3/4/5/6/x.html", "+ ~;,.html", ".dot.html", "a:b.html" }
Main == "main.jinja"
\* the driver writes broken.html with a syntax error, and the backend's files with names
Trees == { {Main},
           {Main, "base.html"},
           {Main, "base.html", "sub/m.html", "sub/deep/x.jinja", "notes.txt"},
           {Main, "a b.html", "ü.html", "日本.j2", "100%.html", "it's.html"},
           {Main, "sub/base.html", "v1.2.html", "#q?.html", "base.html.jinja", "html"},
           {Main, "base.html", "broken.html", "lib.rs", "sub/lib.py", "sub/m.html"},
           {Main, "deep/1/2/3/4/5/6/x.html", "+ ~;,.html", ".dot.html", "a:b.html"},
           \* a backslash is a character like any other
           {Main, "b\\c.html", "d/e.html"}, {Main, "b/c.html", "d\\e.html"},
           Paths \cup {Main} }
Names == Paths \cup { "", "nope.html", "sub", "sub/nope.jinja", "base.html/x.html", "/base.html", "sub//m.html",
                      "BASE.html", " base.html", "ü", "sub/deep", "base", "main.jinja", "m.html", "base.htm", "base.html ", "dot.html", "%62ase.html", "deep/1/2/3/4/5/6",
                      "b\\c.html", "d\\e.html", "b/c.html", "d/e.html", "broken.html", "lib.rs", "sub/lib.py", "li" }

Quotes(n) == IF n = "it's.html" THEN {"\""} ELSE {"\"", "'"}
Tag(toks) == Item("leaf", <<K("{%"), K(" ")>> \o toks \o <<K(" "), K("%}")>>)
Trim(toks) == Item("leaf", <<K("{%"), K("-"), K(" ")>> \o toks \o <<K(" "), K("-"), K("%}")>>)

Tags(r, r2) ==
  { <<K("extends"), K(" "), r>>,
    <<K("include"), K(" "), r>>,
    <<K("include"), K(" "), K("["), r, K(", "), r2, K("]")>>,
    <<K("import"), K(" "), r, K(" "), K("as"), K(" "), K("m")>>,
    <<K("from"), K(" "), r, K(" "), K("import"), K(" "), K("m")>>,
    <<K("from"), K(" "), r, K(" "), K("import"), K(" "), K("m"), K(", "), K("n")>>,
    \* the same with more said
    <<K("include"), K(" "), r, X(" with context")>>, <<K("include"), K(" "), K("["), r, K(", "), K("v"), K(", "), r2, K("]"), X(" without context")>>,
    <<K("include"), K(" "), K("["), r, K(","), r2, K(","), K(" "), r2, K("]")>>, <<K("include"), K(" "), K("("), r, K(", "), r2, K(")")>>,
    <<K("include"), K(" "), r, K(" "), K("if"), K(" "), K("v"), K(" "), K("else"), K(" "), r2>>,
    <<K("import"), K(" "), r, K(" "), K("as"), K(" "), K("m"), X(" with context")>>,
    <<K("from"), K(" "), r, K(" "), K("import"), K(" "), X("m as n, o as p"), X(" without context")>>,
    <<K("from"), K(" "), r, K(" "), K("import"), K(" "), X("m with context")>> }
\* a tag may go over several lines
Over(toks, k) == IF k = 0 THEN toks ELSE [i \in 1..Len(toks) |-> IF toks[i].t = " " /\ (i + k) % 2 = 0 THEN NL ELSE toks[i]]
Raw(toks) == Item("leaf", <<X("{% raw %}{% ")>> \o [i \in 1..Len(toks) |-> IF toks[i].r = "ref" THEN X(toks[i].t) ELSE toks[i]] \o <<X(" %}{% endraw %}")>>)

Others ==
  { Item("leaf", <<X("some text")>>), Item("leaf", <<NL>>), Item("leaf", <<X("é "), NL, X("  ")>>),
    Item("leaf", <<X("\"base.html\" ")>>),
    Item("leaf", <<X("{# "), X("{% include \"nope.html\" %}"), X(" #}")>>),
    Item("leaf", <<K("{{"), K(" "), V("v"), K(" ~ "), X("\"nope.html\""), K(" "), K("}}")>>),
    Item("leaf", <<K("{{"), K(" "), V("v"), K("."), F("f"), K(" | "), Fl("upper"), K(" "), K("}}")>>),
    Tag(<<K("set"), K(" "), D("v", "set"), K(" = "), X("\"nope.html\"")>>) }

\* statements of a function, between its first and its last line
Call(b, r, a) == Item("leaf", <<X("    "), X(b), r, X(a), NL>>)
RustCalls(r) ==
  { Call("let t = jinja.get_template(", r, ").unwrap();"),
    Call("let t = get_template(", r, ");"),
    Call("render_jinja(", r, ", context! { v => 1 });"),
    Call("app.state().render_jinja(", r, ");"),
    Call("if let Ok(t) = env.get_template(", r, ") { t.render(1); }") }
PythonCalls(r) ==
  { Call("t = jinja.get_template(", r, ")"),
    Call("t = get_template(", r, ")"),
    Call("return render_jinja(", r, ", v=1)"),
    Call("app.render_jinja(", r, ")"),
    Call("for t in [env.get_template(", r, ")]: pass") }
RustOthers == { Item("leaf", <<X("    open(\"nope.html\");"), NL>>), Item("leaf", <<X("    // get_template(\"nope.html\")"), NL>>),
                Item("leaf", <<X("    let s = \"get_template(nope.html) é\";"), NL>>),
                Item("leaf", <<X("    log(\"get_template\", \"nope.html\");"), NL>>), Item("leaf", <<NL>>) }
PythonOthers == { Item("leaf", <<X("    open(\"nope.html\")"), NL>>), Item("leaf", <<X("    # get_template(\"nope.html\")"), NL>>),
                  Item("leaf", <<X("    s = \"get_template(nope.html) é\""), NL>>),
                  Item("leaf", <<X("    log(\"get_template\", \"nope.html\")"), NL>>), Item("leaf", <<NL>>) }

Prologue == CASE Lang = "template" -> <<>>
          [] Lang = "rust" -> << Item("leaf", <<X("fn page() {"), NL>>) >>
          [] Lang = "python" -> << Item("leaf", <<X("def page():"), NL, X("    pass"), NL>>) >>
Epilogue == IF Lang = "rust" THEN << Item("leaf", <<X("}"), NL>>) >> ELSE <<>>
Text == Prologue \o items \o Epilogue

Init == items = <<>> /\ tree \in Trees /\ done = FALSE
Room == ~done /\ Len(items) < MaxItems
Add(i) == items' = Append(items, i) /\ UNCHANGED <<tree, done>>

\* the grammar has no strings with the other kind of quote inside
Escaped == {"b\\c.html", "d\\e.html"}       \* means something else in a source
Usable == IF Lang = "template" THEN Names \ {"it's.html"} ELSE Names \ Escaped
AddRef == Room /\ \E n \in Pick(Usable), n2 \in Pick(Usable) : \E q \in Pick(IF Lang = "rust" THEN {"\""} ELSE Quotes(n)), q2 \in Pick(Quotes(n2)) :
  LET r == Ref(q, n)
      r2 == Ref(q2, n2)
  IN CASE Lang = "template" -> \E t \in Pick(Tags(r, r2)), k \in Pick(IF Random THEN 0..2 ELSE {0}) :
                                 \E i \in Pick({Tag(Over(t, k)), Trim(Over(t, k))} \cup (IF Random /\ k = 1 THEN {Raw(t)} ELSE {})) : Add(i)
       [] Lang = "rust" -> \E i \in Pick(RustCalls(r)) : Add(i)
       [] Lang = "python" -> \E i \in Pick(PythonCalls(r)) : Add(i)
AddOther == Room /\ \E i \in Pick(CASE Lang = "template" -> Others [] Lang = "rust" -> RustOthers [] Lang = "python" -> PythonOthers) : Add(i)
Finish == ~done /\ items # <<>> /\ (Random => Len(items) >= MaxItems) /\ done' = TRUE /\ UNCHANGED <<items, tree>>

Next == AddRef \/ AddRef \/ AddOther \/ Finish
Spec == Init /\ [][Next]_vars

Sound ==
  /\ OfferedIsFound(tree)
  /\ \A r \in Range(RefsOf(Text)) : Narrowing(r, tree) /\ CreatingFinds(r, tree)

(* ------------------------------ cases out ------------------------------ *)
\* Places that are neither references nor in expressions: the texts and comments.
Plain ==
  LET step(acc, i) ==
        [ pt |-> FoldLeft(Advance, acc.pt, i.toks),
          at |-> IF Len(i.toks) = 1 /\ i.toks[1].r = "-" THEN acc.at \cup {acc.pt + 1, acc.pt + 2} ELSE acc.at ]
  IN FoldLeft(step, [pt |-> 0, at |-> {}], Text).at

Case ==
  LET a == Analyse(Text)
      refs == RefsOf(Text)
  IN [ lang |-> Lang, tree |-> tree, text |-> a.txt,
       refs |-> [i \in 1..Len(refs) |->
                   [ n |-> refs[i].n, s |-> refs[i].s, e |-> refs[i].e, file |-> Stands(refs[i].n),
                     missing |-> Missing(refs[i].n, tree),
                     typed |-> [k \in 1..(Len(refs[i].n) + 1) |->
                                  [ at |-> Typed(refs[i])[k - 1].at, offered |-> Offered(Typed(refs[i])[k - 1].typed, tree) ]] ]],
       exprs |-> {[s |-> u.s, e |-> u.e] : u \in {u \in Range(a.uses) : u.x /\ u.r = "var"}},
       plain |-> IF Lang = "template" THEN Plain ELSE {} ]

Emit == (done /\ OutFile # "") => CSVWrite("%1$s", <<ToJson(Case)>>, OutFile)
=============================================================================
