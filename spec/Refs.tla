--------------------------------- MODULE Refs ---------------------------------
(***************************************************************************)
(* References to templates: the strings of extends, include, import and    *)
(* from, and of the backend calls that load a template; which file each    *)
(* stands for, whether it exists, what completion offers inside of it.     *)
(***************************************************************************)
EXTENDS Template

(* ------------------------------- strings ------------------------------- *)
Char(s, i) == SubSeq(s, i, i)
Bytes(s) == FoldLeft(LAMBDA acc, i : acc + Width(Char(s, i)), 0, [i \in 1..Len(s) |-> i])
Has(s, p) == Len(p) = 0 \/ \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* -------------------------------- names -------------------------------- *)
\* Empty segments of a name mean nothing: "/a" and "sub//a" are "a" and "sub/a".
Segments(name) ==
  LET f == FoldLeft(LAMBDA acc, i : IF Char(name, i) = "/" THEN [done |-> Append(acc.done, acc.now), now |-> ""]
                                    ELSE [acc EXCEPT !.now = @ \o Char(name, i)],
                    [done |-> <<>>, now |-> ""], [i \in 1..Len(name) |-> i])
  IN SelectSeq(Append(f.done, f.now), LAMBDA x : x # "")
Join(segs) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o "/" \o x, "", segs)
Stands(name) == Join(Segments(name))

\* tree: the files below the template directory, by their path
Missing(name, tree) == Stands(name) \notin tree

IsTemplate(path) == \E x \in {".html", ".jinja", ".j2"} : EndsWith(path, x)
Offered(typed, tree) == {p \in tree : IsTemplate(p) /\ Has(p, typed)}

(* -------------------------------- tokens ------------------------------- *)
Ref(q, name) == [t |-> q \o name \o q, n |-> name, w |-> Bytes(name) + 2, r |-> "ref", d |-> ""]
\* text of several characters
X(t) == [t |-> t, n |-> t, w |-> Bytes(t), r |-> "-", d |-> ""]

\* the references of a document with their places
RefsOf(items) ==
  LET toks == FoldLeft(LAMBDA acc, i : acc \o i.toks, <<>>, items)
      step(acc, tok) ==
        [ pt |-> Advance(acc.pt, tok),
          refs |-> IF tok.r = "ref" THEN Append(acc.refs, [n |-> tok.n, s |-> acc.pt, e |-> acc.pt + tok.w]) ELSE acc.refs ]
  IN FoldLeft(step, [pt |-> 0, refs |-> <<>>], toks).refs

\* what is typed of a name with the cursor at each of its characters
Typed(ref) == [i \in 0..Len(ref.n) |-> [at |-> ref.s + 1 + Bytes(SubSeq(ref.n, 1, i)), typed |-> SubSeq(ref.n, 1, i)]]

(* ------------------------------ properties ----------------------------- *)
\* What completion offers is found, and named as such.
OfferedIsFound(tree) == \A p \in tree : Stands(p) = p /\ ~Missing(p, tree)
\* Typing more never offers more.
Narrowing(ref, tree) == \A i \in 1..Len(ref.n) : Offered(Typed(ref)[i].typed, tree) \subseteq Offered(Typed(ref)[i - 1].typed, tree)
\* Creating the file a reference stands for, and only that, makes it found.
CreatingFinds(ref, tree) == Stands(ref.n) # "" => ~Missing(ref.n, tree \cup {Stands(ref.n)})
=============================================================================
