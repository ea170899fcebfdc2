--------------------------------- MODULE Load ---------------------------------
(***************************************************************************)
(* Scripts for a client that doesn't wait: what it says, and how long it   *)
(* pauses after it, which is often about as long as the timers take.       *)
(***************************************************************************)
EXTENDS Workspace, Json, CSV, IOUtils, Randomization
CONSTANTS Paths, Contents, Steps, OutFile
VARIABLES disk, open, script
lvars == <<disk, open, script>>
One(S) == {RandomElement(S)}
For(p) == ContentsFor(p) \cap Contents
Pauses == <<0, 0, 0, 0, 5, 60, 150, 195, 200, 205, 260, 420>>
Init == \E d \in RandomSubset(120, [Paths -> Contents \cup {None}]) :
  /\ disk = [p \in Paths |-> IF d[p] # None /\ d[p] \notin ContentsFor(p) THEN "empty" ELSE d[p]]
  /\ open = {} /\ script = <<>>
Say(op, p, c) == \E i \in One(1..Len(Pauses)) :
  script' = Append(script, [op |-> op, p |-> p, c |-> c, text |-> TextOf(c), pause |-> Pauses[i]]) /\ UNCHANGED disk
Room == Len(script) < Steps
Open == Room /\ \E p \in One(Paths) : \E c \in One(For(p)) : open' = open \cup {p} /\ Say("open", p, c)
Change == Room /\ open # {} /\ \E p \in One(open) : \E c \in One(For(p)) : UNCHANGED open /\ Say("change", p, c)
Save == Room /\ open # {} /\ \E p \in One(open) : UNCHANGED open /\ Say("save", p, None)
Close == Room /\ open # {} /\ \E p \in One(open) : open' = open \ {p} /\ Say("close", p, None)
Ask == Room /\ \E p \in One(Paths) : UNCHANGED open /\ Say("ask", p, None)
Reset == Room /\ UNCHANGED open /\ Say("reset", None, None)
Next == Open \/ Open \/ Change \/ Change \/ Change \/ Change \/ Save \/ Close \/ Ask \/ Ask \/ Reset
Spec == Init /\ [][Next]_lvars
Emit == Len(script) = Steps => CSVWrite("%1$s", <<ToJson([disk |-> {[p |-> p, c |-> disk[p], text |-> TextOf(disk[p])] : p \in Paths}, script |-> script])>>, OutFile)
===============================================================================
