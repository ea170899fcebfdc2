--------------------------------- MODULE Burst --------------------------------
(***************************************************************************)
(* Bursts of messages for a real server, and what they have to come to:    *)
(* how often each document is published at least and at most, and the      *)
(* version of its text and the setting that count in the end.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization
CONSTANTS Templates, Sources, Phases, Sizes, Reads, OutFile
VARIABLES version, hide, least, most, asked, script
vars == <<version, hide, least, most, asked, script>>
Docs == Templates \cup Sources
One(S) == {RandomElement(S)}
\* all documents are on the disk and open
Init == /\ version = [d \in Docs |-> 0] /\ hide = FALSE /\ least = [d \in Docs |-> 0] /\ most = [d \in Docs |-> 0]
        /\ asked = 0 /\ script = <<>>
Room == Len(script) < Phases
Say(op, d, n, x) == script' = Append(script, [op |-> op, d |-> d, n |-> n, x |-> x, deaf |-> RandomElement(1..4) = 1])
More(f, d, n) == [f EXCEPT ![d] = @ + n]
Edit == Room /\ \E d \in One(Docs) : \E n \in One(Sizes) :
  /\ version' = [version EXCEPT ![d] = (@ + n) % 97] /\ most' = More(most, d, n) /\ Say("edit", d, n, version'[d])
  /\ UNCHANGED <<hide, least, asked>>
Save == Room /\ \E d \in One(Docs) : \E n \in One(Sizes) :
  /\ least' = More(least, d, n) /\ most' = More(most, d, n) /\ Say("save", d, n, 0) /\ UNCHANGED <<version, hide, asked>>
\* closed and opened again with a new text
Reopen == Room /\ \E d \in One(Docs) : \E n \in One(Sizes) :
  /\ version' = [version EXCEPT ![d] = (@ + n) % 97] /\ least' = More(least, d, 2 * n) /\ most' = More(most, d, 2 * n)
  /\ Say("reopen", d, n, version'[d]) /\ UNCHANGED <<hide, asked>>
\* a reset publishes all templates, and the sources that are open when it comes to it
Everything(n) == /\ least' = [d \in Docs |-> IF d \in Templates THEN least[d] + n ELSE least[d]]
                 /\ most' = [d \in Docs |-> most[d] + n]
Reset == Room /\ \E n \in One(Reads) : /\ Everything(n) /\ Say("reset", "", n, 0) /\ asked' = asked + n /\ UNCHANGED <<version, hide>>
\* settings sent alternate, the last one counts
Configure == Room /\ \E n \in One(Reads) : \E h \in One({0, 1}) :
  /\ Everything(n) /\ Say("configure", "", n, h) /\ hide' = (h = 1) /\ UNCHANGED <<version, asked>>
Ask == Room /\ \E d \in One(Docs) : \E n \in One(Sizes) :
  \E m \in One({"hover", "completion", "definition", "documentSymbol", "codeAction", "warn", "cancel", "unknown", "mixed"}) :
  /\ asked' = asked + n /\ Say(m, d, n, 0) /\ UNCHANGED <<version, hide, least, most>>
Next == Edit \/ Save \/ Reopen \/ Reset \/ Configure \/ Ask
Spec == Init /\ [][Next]_vars
Sound == \A d \in Docs : least[d] <= most[d]
Emit == Len(script) = Phases =>
  CSVWrite("%1$s", <<ToJson([script |-> script, asked |-> asked, hide |-> hide,
     docs |-> {[d |-> d, v |-> version[d], least |-> least[d], most |-> most[d]] : d \in Docs}])>>, OutFile)
===============================================================================
