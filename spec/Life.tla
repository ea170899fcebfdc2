---------------------------------- MODULE Life ---------------------------------
(***************************************************************************)
(* The life of a server from its start to its end, as a client sees it:    *)
(* which requests are answered and which are refused, what notifications   *)
(* are heard, and how it ends.  A client may say anything at any time; at  *)
(* the end it says a number of things at once and then is gone, in one of  *)
(* several ways.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, SequencesExt

CONSTANTS Options,    \* what may be given as initializationOptions, most of it is none
          Good,       \* the one of them which is a configuration
          Ids,        \* forms of the ids of requests
          Steps, Random, OutFile

VARIABLES phase,      \* fresh, begun (initialize was answered), ready (initialized was told), down, over
          docs,       \* what the server has of the documents: a text, or none
          read,       \* whether the workspace was read
          opts,       \* the options of the initialization that succeeded
          log
vars == <<phase, docs, read, opts, log>>

OnDisk == "templates/a.html"
Docs == {OnDisk, "templates/new.html"}
None == "none"  Disk == "disk"
Texts == {"x", "y"}
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Alive == phase \in {"begun", "ready"}

\* error codes; a request whose method isn't known may be refused for either reason
TooEarly == "-32002"  Invalid == "-32600"  Unknown == "-32601"  BadParams == "-32602"
Refusal == IF phase = "fresh" THEN {TooEarly} ELSE {Invalid}

Init == phase = "fresh" /\ docs = [d \in Docs |-> None] /\ read = FALSE /\ opts = "" /\ log = <<>>
\* m: what is said, d: of which document, x: with what, codes: what the response may be ("0" a result, nothing none), text: of which
\* text the symbols are if they're the result
Step(m, d, x, codes, text) == log' = Append(log, [m |-> m, d |-> d, x |-> x, codes |-> codes, text |-> text, phase |-> phase])
More == Len(log) < Steps /\ phase # "over"

(* -------------------------------- requests ------------------------------ *)
Questions == {"documentSymbol", "hover", "definition", "completion", "codeAction", "reset_variables", "warn", "no such command"}
AnswerOf(m, d) == IF ~Alive THEN [codes |-> Refusal, text |-> ""]
                  ELSE [codes |-> {"0"}, text |-> IF m = "documentSymbol" THEN docs[d] ELSE ""]
Ask == More /\ \E m \in Pick(Questions) : \E d \in Pick(Docs) : \E i \in Pick(Ids) :
  /\ Step(m, d, i, AnswerOf(m, d).codes, AnswerOf(m, d).text)
  /\ (m = "reset_variables" /\ Alive) => opts # Good \/ phase = "ready"   \* (reading before initialized was told is left out)
  /\ UNCHANGED <<phase, docs, read, opts>>
\* symbols are asked more often
Look == More /\ \E d \in Pick(Docs) : \E i \in Pick(Ids) :
  Step("documentSymbol", d, i, AnswerOf("documentSymbol", d).codes, AnswerOf("documentSymbol", d).text) /\ UNCHANGED <<phase, docs, read, opts>>
Initialize == More /\ \E o \in Pick(Options) :
  IF phase = "fresh"
  THEN phase' = "begun" /\ opts' = o /\ Step("initialize", "", o, {"0"}, "") /\ UNCHANGED <<docs, read>>
  ELSE Step("initialize", "", o, {Invalid}, "") /\ UNCHANGED <<phase, docs, read, opts>>
Unoffered == {"method", "references", "rename", "willSaveWaitUntil", "resolve", "formatting", "tokens", "symbol"}
Wrongs == Unoffered \cup {"hover", "completion", "position", "uri", "command", "initialize"}
Mistake == More /\ \E w \in Pick(Wrongs) : \E i \in Pick(Ids) :
  /\ Step("wrong", w, i, IF w \in Unoffered THEN {Unknown} \cup (IF Alive THEN {} ELSE Refusal)
                         ELSE IF w = "initialize" THEN (IF phase = "fresh" THEN {BadParams} ELSE {Invalid})
                         ELSE IF Alive THEN {BadParams} ELSE Refusal, "")
  /\ UNCHANGED <<phase, docs, read, opts>>
Shutdown == More /\ Step("shutdown", "", "", IF Alive THEN {"0"} ELSE Refusal, "")
  /\ phase' = (IF Alive THEN "down" ELSE phase) /\ UNCHANGED <<docs, read, opts>>

(* ------------------------------ notifications --------------------------- *)
Tell(m, d, x) == Step(m, d, x, {}, "")
\* the workspace is read when that is told the first time (telling it again isn't foreseen)
Initialized ==
  /\ More /\ phase # "ready" /\ Tell("initialized", "", "")
  /\ IF phase = "begun"
     THEN /\ phase' = "ready" /\ read' = (opts = Good)
          /\ docs' = [docs EXCEPT ![OnDisk] = IF @ = None /\ opts = Good THEN Disk ELSE @]
     ELSE UNCHANGED <<phase, read, docs>>
  /\ UNCHANGED opts
Open == More /\ \E d \in Pick(Docs) : \E x \in Pick(Texts) : Tell("didOpen", d, x)
  /\ docs' = (IF Alive THEN [docs EXCEPT ![d] = x] ELSE docs) /\ UNCHANGED <<phase, read, opts>>
Change == More /\ \E d \in Pick({y \in Docs : Alive => docs[y] \in Texts}) : \E x \in Pick(Texts) : Tell("didChange", d, x)
  /\ docs' = (IF Alive THEN [docs EXCEPT ![d] = x] ELSE docs) /\ UNCHANGED <<phase, read, opts>>
Save == More /\ \E d \in Pick({y \in Docs : Alive => docs[y] \in Texts}) : Tell("didSave", d, "") /\ UNCHANGED <<phase, docs, read, opts>>
\* closed as it was read, or forgotten
Close == More /\ \E d \in Pick({y \in Docs : Alive => docs[y] \in Texts /\ read}) : Tell("didClose", d, "")
  /\ docs' = (IF Alive THEN [docs EXCEPT ![d] = IF d = OnDisk THEN Disk ELSE None] ELSE docs) /\ UNCHANGED <<phase, read, opts>>
Noise == More /\ \E x \in Pick({"$/strange", "strange", "didOpen without params", "didChange without params", "cancel", "a response", "setTrace",
                                 "willSave", "watched", "folders", "cancel the last"}) :
  Tell("noise", "", x) /\ UNCHANGED <<phase, docs, read, opts>>

\* time passes, more or less than any timer of the server takes
Wait == More /\ \E x \in Pick({"shortly", "shortly", "long"}) : Tell("wait", "", x) /\ UNCHANGED <<phase, docs, read, opts>>

(* --------------------------------- the end ------------------------------ *)
Ways == {"eof", "eof", "exit", "half of a header", "half of a message", "hang up"}
\* so many of these are said at once before it
Lasts == {"documentSymbol", "hover", "completion", "codeAction", "didChange", "didOpen", "didSave", "warn", "nothing"}
Some == IF Random THEN Lasts ELSE {"documentSymbol"}
Sizes == IF Random THEN {1, 7, 60, 180} ELSE {1}
\* the text of the second document after them; each changes it to its own text
End == phase # "over" /\ (Len(log) = Steps \/ ~Random) /\ \E w \in Pick(Ways) : \E m \in Pick(Some) : \E n \in Pick(Sizes) : \E m2 \in Pick(Some) :
  /\ phase' = "over" /\ UNCHANGED <<docs, read, opts>>
  /\ log' = Append(log, [m |-> "end", d |-> w, x |-> <<[m |-> m, n |-> n], [m |-> m2, n |-> n]>>, phase |-> phase, text |-> "",
                         codes |-> IF phase \in {"fresh", "down"} THEN Refusal ELSE {"0"}])

Next == CASE phase = "fresh" -> Initialize \/ Initialize \/ Initialize \/ Ask \/ Mistake \/ Shutdown \/ Initialized \/ Open \/ Change \/ Noise \/ Wait \/ End
          [] phase = "begun" -> Initialized \/ Initialized \/ Look \/ Ask \/ Open \/ Open \/ Initialize \/ Mistake \/ Noise \/ Change \/ Save \/ Shutdown \/ Wait \/ End
          [] phase = "ready" -> Look \/ Look \/ Ask \/ Open \/ Open \/ Change \/ Change \/ Save \/ Close \/ Mistake \/ Noise \/ Initialize
                                \/ (Len(log) * 2 > Steps /\ Shutdown) \/ Wait \/ End
          [] phase = "down" -> Wait \/ Wait \/ Ask \/ Look \/ Initialize \/ Initialized \/ Shutdown \/ Open \/ Change \/ Save \/ Close \/ Mistake \/ Noise \/ End
          [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Idx == 1..Len(log)
\* it is initialized once at most
OneInitialization == Cardinality({i \in Idx : log[i].m = "initialize" /\ "0" \in log[i].codes}) <= 1
\* before that and after shutdown nothing has a result
Refused == \A i \in Idx : ("0" \in log[i].codes /\ log[i].m # "end") =>
  \/ log[i].m = "initialize" /\ log[i].phase = "fresh"
  \/ log[i].phase \in {"begun", "ready"}
\* what is there is what was said between: the last text, unless it was closed since
Said(i, d) == log[i].phase \in {"begun", "ready"} /\ log[i].d = d /\ log[i].m \in {"didOpen", "didChange", "didClose"}
Heard == \A d \in Docs : LET is == {i \in Idx : Said(i, d)}
                             last == IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
                         IN docs[d] = CASE is # {} /\ log[last].m # "didClose" -> log[last].x
                                        [] d = OnDisk /\ read -> Disk [] OTHER -> None
\* mistakes and noise change nothing, nor does anything that's refused
Harmless == [][(Len(log') > Len(log) /\ (log'[Len(log')].m \in {"wrong", "noise"} \/ phase = "down" \/
                (phase = "fresh" /\ log'[Len(log')].m # "initialize"))) => docs' = docs /\ read' = read /\ (phase' = phase \/ phase' = "over")]_vars
\* it only ever gets older
Age(p) == CASE p = "fresh" -> 0 [] p = "begun" -> 1 [] p = "ready" -> 2 [] p = "down" -> 3 [] OTHER -> 4
Older == [][Age(phase') >= Age(phase)]_vars
Emit == phase = "over" => CSVWrite("%1$s", <<ToJson([log |-> [i \in Idx |-> [log[i] EXCEPT !.codes = SetToSeq(@)]]])>>, OutFile)
===============================================================================
