------------------------------- MODULE Debounce -------------------------------
(***************************************************************************)
(* When edited documents are analysed.  Time passes in ticks; every edit    *)
(* starts the timer of its document anew, which analyses the document when  *)
(* it runs out.  With Random, a typist who works on several documents at   *)
(* different speeds makes schedules to be played on the real server.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization

CONSTANTS Docs, Delay, Horizon, Random, OutFile

VARIABLES now, version, analysed, timer, edited, saved, pace, phase, script
vars == <<now, version, analysed, timer, edited, saved, pace, phase, script>>

Off == -1
One(S) == {RandomElement(S)}
Every(p) == CASE p = "typing" -> 1 [] p = "typing2" -> 2 [] p = "hesitant" -> 4 [] p = "slow" -> 30 [] OTHER -> 0

Init ==
  /\ now = 0 /\ version = [d \in Docs |-> 0] /\ analysed = [d \in Docs |-> 0] /\ timer = [d \in Docs |-> Off]
  /\ edited = [d \in Docs |-> Off] /\ saved = {} /\ script = <<>>
  /\ pace = [d \in Docs |-> "resting"] /\ phase = 0

Note(op, d) == IF Random THEN script' = Append(script, [t |-> now, op |-> op, d |-> d, v |-> version'[d]]) ELSE UNCHANGED script

Edit(d) ==
  /\ version' = [version EXCEPT ![d] = @ + 1] /\ timer' = [timer EXCEPT ![d] = Delay] /\ edited' = [edited EXCEPT ![d] = now]
  /\ Note("edit", d) /\ UNCHANGED <<now, analysed, saved, pace, phase>>
Analyse(d) ==
  /\ timer[d] = 0 /\ timer' = [timer EXCEPT ![d] = Off] /\ analysed' = [analysed EXCEPT ![d] = version[d]]
  /\ UNCHANGED <<now, version, edited, saved, pace, phase, script>>
\* a save analyses at once, and leaves the timer alone
Save(d) ==
  /\ analysed' = [analysed EXCEPT ![d] = version[d]] /\ version' = version
  /\ Note("save", d) /\ saved' = saved \cup {<<d, version[d]>>} /\ UNCHANGED <<now, timer, edited, pace, phase>>
\* time stops for a timer that has run out
Tick ==
  /\ now < Horizon /\ \A d \in Docs : timer[d] # 0
  /\ now' = now + 1 /\ timer' = [d \in Docs |-> IF timer[d] > 0 THEN timer[d] - 1 ELSE timer[d]]
  /\ UNCHANGED <<version, analysed, edited, saved, pace, phase, script>>

(* ------------------------------ the typist ------------------------------ *)
Due(d) == Every(pace[d]) > 0 /\ now % Every(pace[d]) = 0 /\ edited[d] # now
TypistEdits == \E d \in Docs : Due(d) /\ Edit(d)
TypistSaves == \E d \in One(Docs) :
  /\ version[d] > 0 /\ RandomElement(1..12) = 1
  /\ \A i \in 1..Len(script) : ~(script[i].op = "save" /\ script[i].t = now)
  /\ Save(d)
Changes == /\ phase = 0 /\ \E n \in One(10..35) : phase' = n
           /\ pace' = [d \in Docs |-> RandomElement({"typing", "typing2", "hesitant", "slow", "resting", "rest"})]
           /\ UNCHANGED <<now, version, analysed, timer, edited, saved, script>>
TypistTick == /\ \A d \in Docs : ~Due(d)
              /\ phase > 0 /\ now < Horizon /\ \A d \in Docs : timer[d] # 0
              /\ now' = now + 1 /\ timer' = [d \in Docs |-> IF timer[d] > 0 THEN timer[d] - 1 ELSE timer[d]]
              /\ phase' = phase - 1 /\ UNCHANGED <<version, analysed, edited, saved, pace, script>>

Next == IF Random THEN (\E d \in Docs : Analyse(d)) \/ TypistEdits \/ TypistSaves \/ Changes \/ TypistTick
        ELSE \E d \in Docs : Edit(d) \/ Analyse(d) \/ Save(d) \/ Tick
Spec == Init /\ [][Next]_vars
Few == \A d \in Docs : version[d] <= 3

(* ------------------------------ properties ------------------------------ *)
\* a document isn't behind for longer than the delay
Prompt == \A d \in Docs : analysed[d] # version[d] => edited[d] # Off /\ now - edited[d] <= Delay
\* and while it is, its timer runs
Pending == \A d \in Docs : analysed[d] # version[d] => timer[d] # Off /\ timer[d] = Delay - (now - edited[d])
\* what isn't saved is analysed only after a pause
OnlyAfterAPause == [][\A d \in Docs : analysed'[d] # analysed[d] => <<d, analysed'[d]>> \in saved' \/ now - edited[d] >= Delay]_vars
\* documents don't matter to each other
Alone == [][\A d \in Docs : version'[d] # version[d] => \A x \in Docs \ {d} : timer'[x] = timer[x] /\ analysed'[x] = analysed[x]]_vars
Settled == now = Horizon /\ \A d \in Docs : timer[d] = Off => analysed[d] = version[d]
Emit == (Random /\ now = Horizon /\ \A d \in Docs : ~Due(d)) => CSVWrite("%1$s", <<ToJson([script |-> script])>>, OutFile)
===============================================================================
