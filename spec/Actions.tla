------------------------------- MODULE Actions -------------------------------
(***************************************************************************)
(* A document with references to templates while files come and go: what   *)
(* is reported and offered after each analysis.                            *)
(***************************************************************************)
EXTENDS Refs, Json, CSV, IOUtils, Randomization

CONSTANTS Lang, Steps, Random, OutFile

VARIABLES tree,     \* files below the template directory
          refs,     \* names the document refers to, one in each line unless they are tight
          pad,      \* empty lines before them
          tight,    \* whether they are all on one line
          known,    \* what was missing when the document was analysed last, by index
          log       \* what happened so far
vars == <<tree, refs, pad, tight, known, log>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Pool == {"a.html", "sub/b.jinja", "x y.j2", "new/deep/c.html", "ü.html"}
Docs == { <<"a.html">>, <<"a.html", "sub/b.jinja">>, <<"x y.j2", "a.html", "a.html">>, <<"new/deep/c.html", "ü.html">>,
          <<"ü.html", "/a.html", "sub/b.jinja", "x y.j2">>, <<>> }

Line_(n) ==
  CASE Lang = "template" -> Item("leaf", <<X("é {% include "), Ref("\"", n), X(" %}{{ w }}"), NL>>)
    [] Lang = "rust" -> Item("leaf", <<X("    let t = jinja.get_template("), Ref("\"", n), X(");"), NL>>)
    [] Lang = "python" -> Item("leaf", <<X("    t = jinja.get_template("), Ref("'", n), X(")"), NL>>)
Prologue == CASE Lang = "template" -> Item("leaf", <<X("start"), NL>>)
              [] Lang = "rust" -> Item("leaf", <<X("fn page() {"), NL>>)
              [] Lang = "python" -> Item("leaf", <<X("def page():"), NL, X("    pass"), NL>>)
Epilogue == IF Lang = "rust" THEN Item("leaf", <<X("}"), NL>>) ELSE Item("leaf", <<NL>>)
Line(n, t) == LET l == Line_(n) IN IF t THEN [l EXCEPT !.toks = SubSeq(@, 1, Len(@) - 1) \o <<X(IF Lang = "python" THEN "; " ELSE "")>>] ELSE l
Items(r, p, t) == [i \in 1..p |-> Item("leaf", <<NL>>)] \o <<Prologue>> \o [i \in 1..Len(r) |-> Line(r[i], t /\ i < Len(r))] \o <<Epilogue>>
Text(r, p, t) == Analyse(Items(r, p, t)).txt

\* every reference with its place and whether it is reported
Report(r, p, ti, k) ==
  LET places == RefsOf(Items(r, p, ti))
  IN [i \in 1..Len(r) |-> [s |-> places[i].s, e |-> places[i].e, file |-> Stands(r[i]), missing |-> i \in k]]
MissingOf(r, t) == {i \in 1..Len(r) : Missing(r[i], t)}

Init == /\ tree \in {{}, {"a.html"}, {"sub/b.jinja", "x y.j2"}} /\ refs \in Docs /\ pad = 0 /\ tight \in {TRUE, FALSE}
        /\ known = MissingOf(refs, tree)
        /\ log = << [op |-> "open", tree |-> tree, text |-> Text(refs, 0, tight), report |-> Report(refs, 0, tight, known)] >>

Room == Len(log) < Steps
Say(entry) == log' = Append(log, entry)

Create == Room /\ \E f \in Pick(Pool \ tree) :
  /\ tree' = tree \cup {f} /\ UNCHANGED <<refs, pad, tight, known>>
  /\ Say([op |-> "create", file |-> f])
Delete == Room /\ \E f \in Pick(tree) :
  /\ tree' = tree \ {f} /\ UNCHANGED <<refs, pad, tight, known>>
  /\ Say([op |-> "delete", file |-> f])
Analysed(op, r, p, ti, t) ==
  /\ known' = MissingOf(r, t)
  /\ Say([op |-> op, text |-> Text(r, p, ti), report |-> Report(r, p, ti, MissingOf(r, t))])
Save == Room /\ UNCHANGED <<tree, refs, pad, tight>> /\ Analysed("save", refs, pad, tight, tree)
\* everything is replaced, or a line is added in front
Edit == Room /\ \E r \in Pick(Docs), t \in Pick({TRUE, FALSE}) :
  refs' = r /\ pad' = 0 /\ tight' = t /\ UNCHANGED tree /\ Analysed("edit", r, 0, t, tree)
Shift == Room /\ pad < 3 /\ pad' = pad + 1 /\ UNCHANGED <<tree, refs, tight>> /\ Analysed("shift", refs, pad + 1, tight, tree)
\* The user accepts the action offered on a missing reference, which creates the
\* file; the document is analysed again without being asked for.
Generate == Room /\ \E i \in Pick(known \cap MissingOf(refs, tree)) :
  LET t == tree \cup {Stands(refs[i])} IN
  /\ tree' = t /\ UNCHANGED <<refs, pad, tight>>
  /\ known' = MissingOf(refs, t)
  /\ Say([op |-> "generate", at |-> RefsOf(Items(refs, pad, tight))[i].s, file |-> Stands(refs[i]),
          text |-> Text(refs, pad, tight), report |-> Report(refs, pad, tight, MissingOf(refs, t))])

Next == (Create /\ tree # Pool) \/ (tree # {} /\ Delete) \/ Save \/ Edit \/ Shift
        \/ (known \cap MissingOf(refs, tree) # {} /\ Generate)
Spec == Init /\ [][Next]_vars

\* After an analysis what is known is what is true; without one it stays.
KnownIsTrue ==
  LET last == log[Len(log)] IN last.op \in {"open", "save", "edit", "shift", "generate"} => known = MissingOf(refs, tree)
\* An accepted action never leaves its own reference missing.
GenerateFixes ==
  LET last == log[Len(log)] IN
    last.op = "generate" => \A i \in 1..Len(last.report) : last.report[i].file = last.file => ~last.report[i].missing

Emit == (Len(log) = Steps /\ OutFile # "") => CSVWrite("%1$s", <<ToJson([lang |-> Lang, log |-> log])>>, OutFile)
=============================================================================
