-------------------------------- MODULE Typing --------------------------------
(***************************************************************************)
(* Many small edits of one document at once, each of which makes sense     *)
(* only after those before it, and what the document is in between.        *)
(* This is what Queues' InOrder means to a client: an answer is that after *)
(* exactly the messages sent before the question.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, CSV
CONSTANTS Letters, Steps, OutFile
VARIABLES name,     \* what the document defines, without its first letter
          script, answers
vars == <<name, script, answers>>
One(S) == {RandomElement(S)}
Lens == {1, 5, 20, 40, 60}
Word(x, n) == SubSeq(Letters, x, x + n - 1)
Chars(w) == [j \in 1..Len(w) |-> SubSeq(w, j, j)]
Init == name = "" /\ script = <<>> /\ answers = <<>>
More == Len(script) < Steps
Say(op, x) == script' = Append(script, [op |-> op, x |-> x])
\* letter by letter, each behind the last one
Type == More /\ Len(name) < 150 /\ \E n \in One(Lens) : \E x \in One(1..(Len(Letters) - n)) :
  /\ name' = name \o Word(x, n)
  /\ script' = Append(script, [op |-> "insert", keys |-> [j \in 1..n |-> [at |-> Len(name) + j - 1, c |-> SubSeq(Letters, x + j - 1, x + j - 1)]]])
  /\ UNCHANGED answers
\* each in front of the last one
Back == More /\ Len(name) < 150 /\ \E n \in One(Lens) : \E x \in One(1..(Len(Letters) - n)) : \E k \in One(0..Len(name)) :
  LET keys == [j \in 1..n |-> SubSeq(Letters, x + j - 1, x + j - 1)]
      rev == [j \in 1..n |-> keys[n + 1 - j]]
      w == LET F[j \in 0..n] == IF j = 0 THEN "" ELSE F[j - 1] \o rev[j] IN F[n] IN
  /\ name' = SubSeq(name, 1, k) \o w \o SubSeq(name, k + 1, Len(name))
  /\ script' = Append(script, [op |-> "insert", keys |-> [j \in 1..n |-> [at |-> k, c |-> keys[j]]]])
  /\ UNCHANGED answers
\* one after the other from the end
Erase == More /\ name # "" /\ \E n \in One(Lens) : n <= Len(name) /\
  /\ name' = SubSeq(name, 1, Len(name) - n)
  /\ script' = Append(script, [op |-> "erase", keys |-> [j \in 1..n |-> [at |-> Len(name) - j]]])
  /\ UNCHANGED answers
Whole == More /\ \E n \in One(Lens) : \E x \in One(1..(Len(Letters) - n)) :
  /\ name' = Word(x, n) /\ script' = Append(script, [op |-> "whole", text |-> name']) /\ UNCHANGED answers
Reopen == More /\ \E n \in One(Lens) : \E x \in One(1..(Len(Letters) - n)) :
  /\ name' = Word(x, n) /\ script' = Append(script, [op |-> "reopen", text |-> name']) /\ UNCHANGED answers
Ask == More /\ script # <<>> /\ script[Len(script)].op # "ask"
  /\ script' = Append(script, [op |-> "ask"]) /\ answers' = Append(answers, name) /\ UNCHANGED name
Next == Type \/ Back \/ Erase \/ Whole \/ Reopen \/ Ask
Spec == Init /\ [][Next]_vars
Emit == Len(script) = Steps => CSVWrite("%1$s", <<ToJson([script |-> script, answers |-> answers])>>, OutFile)
===============================================================================
