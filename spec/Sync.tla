--------------------------------- MODULE Sync ---------------------------------
(***************************************************************************)
(* The text of a document while it is edited.  A text is a sequence of     *)
(* characters; a position is a line and a column in bytes, what is past    *)
(* the end of a line or of the text means that end.  The document is kept  *)
(* as a sequence of pieces, so that it can be broken and be whole again.   *)
(***************************************************************************)
EXTENDS Refs, Json, CSV, IOUtils, Randomization

CONSTANTS Steps, Random, Lang, OutFile

VARIABLES pieces,     \* what the document is made of
          text,       \* its characters, as the notifications say
          log
vars == <<pieces, text, log>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Chars(s) == [i \in 1..Len(s) |-> Char(s, i)]
Rust ==
  { "// é日\n", "\n", "\r\n", "fn a() { render_jinja(\"nope.html\", context! { v => 1 }); }\n", "fn b() {\n    jinja.add_global(\"w\", 1);\n}\r\n",
    "fn c() { let s = \"日本\"; t(context! {\n s => s, b => 2 \n}); }\n", "use a::b;\n", "static X: &str = \"ü\";\n", "fn d() { jinja.get_template(\"other.jinja\"); }\n" }
Python ==
  { "# é日\n", "\n", "\r\n", "jinja_env.globals['v'] = 1\n", "def page():\n    return render_template(\"m.html\", w=1)\n", "x = \"日本\"; y = 1\n",
    "jinja_env.filters[\"b\"] = len\r\n", "t = get_template(\"nope.html\")\n", "def c():\n    x = \"ü\"\n    return t.render(s=x)\n" }
Strings ==
  IF Lang = "rust" THEN Rust ELSE IF Lang = "python" THEN Python
  ELSE IF Random
  THEN { "abc ", "é日 ", "\n", "\r\n", "\n\n", "{{ v }}", "{% set v = 1 %}", "{% for i in v %}", "{% endfor %}",
         "{{ v.f | upper }}", "{# é #}", "{% macro m(a, b) %}", "{% endmacro %}", "{% include \"nope.html\" %}",
         "{{ i +\n w }}", "{% set w =\r\n v %}", "{% if v is odd %}", "{% else %}", "{% endif %}", "{{ m(w, k=v) }}",
         "{% with w = 1 %}", "{% endwith %}", "{% block v %}", "{% endblock %}", "{{ \"ü\" ~ i }}", "{{ be | abs }}" }
  ELSE { "é\n", "{{ v }}", "{% set v = 1 %}", "\r\n" }
Pieces == {Chars(s) : s \in Strings} \cup (IF Random /\ Lang = "template" THEN {<<"𝄞">>, <<"{", "{", " ", "\"", "𝄞", "\"", " ", "+", " ", "v", " ", "}", "}">>} ELSE {})

Flat(p) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, p)
Str2(chars) == FoldLeft(LAMBDA acc, x : acc \o x, "", chars)

(* ------------------------------ positions ------------------------------ *)
\* where the character after the first i ones starts
PosAt(t, i) ==
  FoldLeft(LAMBDA p, c : IF c = "\n" THEN [l |-> p.l + 1, c |-> 0] ELSE [p EXCEPT !.c = @ + Width(c)],
           [l |-> 0, c |-> 0], SubSeq(t, 1, i))
LineEnd(t, i) == i = Len(t) \/ t[i + 1] = "\n" \/ (t[i + 1] = "\r" /\ i + 1 < Len(t) /\ t[i + 2] = "\n")
\* and the other way round: how many characters come before a position
RECURSIVE Seek(_, _, _)
Seek(t, i, p) ==
  IF i = Len(t) THEN i
  ELSE IF p.l > 0 THEN Seek(t, i + 1, IF t[i + 1] = "\n" THEN [p EXCEPT !.l = @ - 1] ELSE p)
  ELSE IF p.c <= 0 \/ LineEnd(t, i) THEN i
  ELSE Seek(t, i + 1, [p EXCEPT !.c = @ - Width(t[i + 1])])
IndexOf(t, p) == Seek(t, 0, p)

\* Ways to say where character i is.  The end of a line isn't inside of its break.
Ways(t, i) ==
  LET p == PosAt(t, i) IN
    {p} \cup (IF LineEnd(t, i) THEN {[p EXCEPT !.c = @ + 1], [p EXCEPT !.c = @ + 1000]} ELSE {})
        \cup (IF i = Len(t) THEN {[p EXCEPT !.l = @ + 1], [l |-> p.l + 3, c |-> 7], [l |-> 100000, c |-> 0]} ELSE {})

\* Nobody can point between the two characters of a line break.
Inside(t, i) == i > 0 /\ i < Len(t) /\ t[i] = "\r" /\ t[i + 1] = "\n"
Places(t) == {i \in 0..Len(t) : ~Inside(t, i)}

(* -------------------------------- changes ------------------------------ *)
\* the characters from a to b become new; the ends of a range come in any order
Range_(s, e, new) == [whole |-> FALSE, start |-> s, end |-> e, new |-> new, text |-> Str2(new)]
Ranges(t, a, b, new) ==
  LET fwd == {Range_(s, e, new) : s \in Ways(t, a), e \in Ways(t, b)}
  IN fwd \cup {Range_(ch.end, ch.start, new) : ch \in fwd}
Whole(new) == [whole |-> TRUE, start |-> [l |-> 0, c |-> 0], end |-> [l |-> 0, c |-> 0], new |-> new, text |-> Str2(new)]

Apply(t, ch) ==
  IF ch.whole THEN ch.new
  ELSE LET x == IndexOf(t, ch.start)
           y == IndexOf(t, ch.end)
           a == IF x <= y THEN x ELSE y
           b == IF x <= y THEN y ELSE x
       IN SubSeq(t, 1, a) \o ch.new \o SubSeq(t, b + 1, Len(t))
ApplyAll(t, chs) == FoldLeft(Apply, t, chs)

(* ------------------------------ operations ----------------------------- *)
Init == \E p \in Pieces : pieces = <<p>> /\ text = p /\ log = <<[op |-> "open", text |-> Str2(p), after |-> Str2(p), whole |-> TRUE]>>

Room == Len(log) < Steps
At(k) == Len(Flat(SubSeq(pieces, 1, k)))

\* several changes come in one notification or in one each
Notify(chs, newPieces) ==
  /\ text' = ApplyAll(text, chs)
  /\ pieces' = newPieces
  /\ \E together \in Pick({TRUE, FALSE}) :
       log' = log \o IF together THEN << [op |-> "change", changes |-> chs, after |-> Str2(ApplyAll(text, chs)), whole |-> TRUE] >>
                     ELSE [i \in 1..Len(chs) |-> [op |-> "change", changes |-> <<chs[i]>>, after |-> Str2(ApplyAll(text, SubSeq(chs, 1, i))),
                                                  whole |-> i = Len(chs)]]

\* pieces i+1..j are replaced by p, all at once
Replace == Room /\ \E i \in Pick(0..Len(pieces)) : \E j \in Pick(i..(IF i + 2 < Len(pieces) THEN i + 2 ELSE Len(pieces))) :
  \E p \in Pick(Pieces \cup {<<>>}) : \E ch \in Pick(Ranges(text, At(i), At(j), p)) :
    Notify(<<ch>>, SubSeq(pieces, 1, i) \o (IF p = <<>> THEN <<>> ELSE <<p>>) \o SubSeq(pieces, j + 1, Len(pieces)))

\* a piece is written in two steps, the text in between is no template
Type == Room /\ \E i \in Pick(0..Len(pieces)) : \E p \in Pick(Pieces) : \E m \in Pick(Places(p)) :
  LET a == At(i)
      half == SubSeq(text, 1, a) \o SubSeq(p, 1, m) \o SubSeq(text, a + 1, Len(text))
  IN \E c1 \in Pick(Ranges(text, a, a, SubSeq(p, 1, m))) : \E c2 \in Pick(Ranges(half, a + m, a + m, SubSeq(p, m + 1, Len(p)))) :
       Notify(<<c1, c2>>, SubSeq(pieces, 1, i) \o <<p>> \o SubSeq(pieces, i + 1, Len(pieces)))

\* anything is cut out and put back
Cut == Room /\ text # <<>> /\ \E a \in Pick(Places(text)) : \E b \in Pick({x \in Places(text) : x >= a /\ x <= a + 12}) :
  LET cut == SubSeq(text, a + 1, b)
      rest == SubSeq(text, 1, a) \o SubSeq(text, b + 1, Len(text))
  IN \E c1 \in Pick(Ranges(text, a, b, <<>>)) : \E c2 \in Pick(Ranges(rest, a, a, cut)) : Notify(<<c1, c2>>, pieces)

\* two pieces change places, which is one notification or two
Swap == Room /\ Len(pieces) >= 2 /\ \E i \in Pick(1..(Len(pieces) - 1)) :
  LET a == At(i - 1)
      p == pieces[i]
      rest == SubSeq(text, 1, a) \o SubSeq(text, a + Len(p) + 1, Len(text))
      to == a + Len(pieces[i + 1])
  IN \E c1 \in Pick(Ranges(text, a, a + Len(p), <<>>)) : \E c2 \in Pick(Ranges(rest, to, to, p)) :
       Notify(<<c1, c2>>, [pieces EXCEPT ![i] = pieces[i + 1], ![i + 1] = p])

\* several places are changed together, the last one first, as with several cursors, or the first one first
Many == Room /\ Len(pieces) >= 2 /\ \E down \in Pick({TRUE, FALSE}) : \E new \in Pick(IF Random THEN {[i \in 1..Len(pieces) |-> RandomElement(Pieces)]} ELSE {}) :
  LET n == IF Len(pieces) < 6 THEN Len(pieces) ELSE 6
      step(acc, k) ==
        LET i == IF down THEN n + 1 - k ELSE k
            at == Len(Flat(SubSeq(acc.pieces, 1, i - 1)))
        IN [ pieces |-> [acc.pieces EXCEPT ![i] = new[i]], chs |-> Append(acc.chs, Range_(PosAt(Flat(acc.pieces), at), PosAt(Flat(acc.pieces), at + Len(acc.pieces[i])), new[i])) ]
      all == FoldLeft(step, [pieces |-> pieces, chs |-> <<>>], [k \in 1..n |-> k])
  IN Notify(all.chs, all.pieces)

\* everything is replaced, and a piece put in front
All == Room /\ \E p \in Pick(Pieces), q \in Pick(Pieces) :
  LET w == Whole(p) IN \E c2 \in Pick(Ranges(p, 0, 0, q)) : Notify(<<w, c2>>, <<q, p>>)

\* the document is opened again, with or without having been closed
Again == Room /\ \E op \in Pick({"open", "reopen"}) : \E p \in Pick(Pieces), q \in Pick(Pieces) :
  pieces' = <<p, q>> /\ text' = p \o q /\ log' = Append(log, [op |-> op, text |-> Str2(p \o q), after |-> Str2(p \o q), whole |-> TRUE])

Look == Room /\ log[Len(log)].op # "look" /\ UNCHANGED <<pieces, text>> /\ log' = Append(log, [op |-> "look", text |-> Str2(text), after |-> Str2(text), whole |-> TRUE])

Next == Replace \/ Replace \/ Replace \/ Type \/ Type \/ Cut \/ Swap \/ Many \/ All \/ Again \/ Look
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* What the positions say is what was meant.
Faithful == text = Flat(pieces)
\* Positions and characters correspond.
RoundTrip == \A i \in Places(text) : \A p \in Ways(text, i) : IndexOf(text, p) = i

Emit == (Len(log) >= Steps /\ OutFile # "") => CSVWrite("%1$s", <<ToJson([lang |-> Lang, log |-> log, text |-> Str2(text)])>>, OutFile)
=============================================================================
