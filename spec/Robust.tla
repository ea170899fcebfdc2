-------------------------------- MODULE Robust --------------------------------
(***************************************************************************)
(* A client that says anything.  Texts are sequences of fragments, most of *)
(* which aren't whole statements; documents may be of any kind or unknown; *)
(* positions are anywhere.  The state of the server is what notifications  *)
(* made of it, requests only read it, and every request has one response.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization, SequencesExt

CONSTANTS Known,      \* documents whose kind the server knows
          Others,     \* documents of other kinds
          OnDisk,     \* documents known although they aren't open
          Fragments, Steps, Random, Lifecycle, OutFile

VARIABLES life,       \* fresh, ready, down
          docs,       \* fragments of the documents that are open
          saved,      \* the documents that were analysed since they changed last
          log
vars == <<life, docs, saved, log>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Docs == Known \cup Others
None == <<"none">>
Methods == {"hover", "definition", "completion", "documentSymbol", "codeAction"}
Places == {"start", "before", "inside", "after", "end", "past", "below", "far"}
Init == /\ life = (IF Lifecycle THEN "fresh" ELSE "ready") /\ docs = [d \in Docs |-> None] /\ saved = {} /\ log = <<>>

\* what the client may see of a step: whether a publication is due, and the response (0 is a result, None nothing)
Step(op, d, x, pub, response) ==
  log' = Append(log, [op |-> op, d |-> d, x |-> x, pub |-> pub, response |-> response, docs |-> docs'])
More == Len(log) < Steps
Ready == More /\ life = "ready"
Text(n) == IF Random THEN {[i \in 1..RandomElement(1..n) |-> RandomElement(Fragments)]} ELSE {<<f>> : f \in Fragments}

Open == Ready /\ \E d \in Pick(Docs) : \E t \in Text(9) :
  /\ docs' = [docs EXCEPT ![d] = t] /\ saved' = saved \cup {d} /\ UNCHANGED life
  /\ Step("open", d, t, d \in Known, "none")
\* some fragments in the middle are replaced by others
Change == Ready /\ \E d \in Pick({x \in Docs : docs[x] # None}) : \E i \in Pick(0..Len(docs[d])) : \E j \in Pick(i..Len(docs[d])) :
  \E new \in Text(3) :
  /\ (j - i) < 4 \/ ~Random
  /\ docs' = [docs EXCEPT ![d] = SubSeq(@, 1, i) \o new \o SubSeq(@, j + 1, Len(@))] /\ saved' = saved \ {d} /\ UNCHANGED life
  /\ Step("change", d, <<i, j, new>>, FALSE, "none")
\* a document that isn't open is edited: nothing happens
Stray == Ready /\ \E d \in Pick({x \in Docs \ OnDisk : docs[x] = None}) : \E op \in Pick({"stray change", "stray close"}) :
  UNCHANGED <<life, docs, saved>> /\ Step(op, d, <<>>, FALSE, "none")
Save == Ready /\ \E d \in Pick({x \in Docs : docs[x] # None}) :
  /\ saved' = saved \cup {d} /\ UNCHANGED <<life, docs>> /\ Step("save", d, <<>>, d \in Known, "none")
Close == Ready /\ \E d \in Pick({x \in Docs : docs[x] # None}) :
  /\ docs' = [docs EXCEPT ![d] = None] /\ saved' = saved \ {d} /\ UNCHANGED life /\ Step("close", d, <<>>, FALSE, "none")
Reset == Ready /\ /\ saved' = {d \in Docs : docs[d] # None} /\ UNCHANGED <<life, docs>> /\ Step("reset", "", <<>>, FALSE, "0")
\* questions; the server has to have an answer, which is compared with that of a server that was never asked before
Ask == Ready /\ \E d \in Pick(Docs) : \E m \in Pick(Methods) : \E p \in Pick(Places) : \E i \in Pick(0..(IF docs[d] = None THEN 0 ELSE Len(docs[d]))) :
  UNCHANGED <<life, docs, saved>> /\ Step("ask", d, <<m, p, i>>, FALSE, "0")
\* all questions at all places
AskAll == Ready /\ UNCHANGED <<life, docs, saved>> /\ Step("compare", "", <<>>, FALSE, "none")

(* -------------------------------- lifecycle ----------------------------- *)
Invalid == "-32600"  Unknown == "-32601"  BadParams == "-32602"  TooEarly == "-32002"
Initialize == Lifecycle /\ More /\ UNCHANGED <<docs, saved>> /\ life' = (IF life = "fresh" THEN "ready" ELSE life)
              /\ Step("initialize", "", <<>>, FALSE, IF life = "fresh" THEN "0" ELSE Invalid)
Early == Lifecycle /\ More /\ life # "ready" /\ UNCHANGED <<life, docs, saved>> /\ \E d \in Pick(Known) : \E m \in Pick(Methods) :
         Step("ask", d, <<m, "start", 0>>, FALSE, IF life = "fresh" THEN TooEarly ELSE Invalid)
\* notifications at such a time are ignored
EarlyOpen == Lifecycle /\ More /\ life # "ready" /\ UNCHANGED <<life, docs, saved>> /\ \E d \in Pick(Known) : \E t \in Text(2) :
         Step("open", d, t, FALSE, "none")
Strange == Lifecycle /\ Ready /\ UNCHANGED <<life, docs, saved>> /\ \E x \in Pick({"method", "notification", "negative", "missing", "command"}) :
         Step("strange", "", <<x>>, FALSE, CASE x = "method" -> Unknown [] x = "notification" -> "none" [] x = "command" -> "0" [] OTHER -> BadParams)
Shutdown == Lifecycle /\ Ready /\ Len(log) > Steps \div 2 /\ life' = "down" /\ UNCHANGED <<docs, saved>> /\ Step("shutdown", "", <<>>, FALSE, "0")

Next == IF life = "ready"
        THEN IF Lifecycle THEN Initialize \/ Open \/ Change \/ Ask \/ Ask \/ Strange \/ Strange \/ Shutdown \/ Save
             ELSE Open \/ Open \/ Change \/ Change \/ Change \/ Stray \/ Save \/ Close \/ Reset \/ Ask \/ Ask \/ AskAll
        ELSE Initialize \/ Early \/ EarlyOpen
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Does(e) == e.op \in {"open", "change", "save", "close"}
\* the state is what the notifications alone make of it
Told(ds, e) == CASE e.op = "open" -> [ds EXCEPT ![e.d] = e.x]
                 [] e.op = "change" -> [ds EXCEPT ![e.d] = SubSeq(@, 1, e.x[1]) \o e.x[3] \o SubSeq(@, e.x[2] + 1, Len(@))]
                 [] e.op = "close" -> [ds EXCEPT ![e.d] = None] [] OTHER -> ds
Heard == LET from == IF Lifecycle THEN SelectSeq(log, LAMBDA e : Does(e) /\ ~(e.op = "open" /\ e.docs[e.d] # e.x)) ELSE SelectSeq(log, LAMBDA e : Does(e))
         IN docs = FoldLeft(Told, [d \in Docs |-> None], from)
\* questions, whatever they are, change nothing
OnlyReads == [][Len(log') > Len(log) /\ log'[Len(log')].op \in {"ask", "compare", "strange"} => docs' = docs /\ saved' = saved /\ life' = life]_vars
\* whatever has a response has one, and only the life of the server makes it an error
Answered == \A i \in 1..Len(log) : log[i].op \in {"ask", "initialize", "shutdown", "reset"} => log[i].response # "none"
Emit == Len(log) = Steps => CSVWrite("%1$s", <<ToJson([log |-> [i \in 1..Len(log) |->
    [op |-> log[i].op, d |-> log[i].d, x |-> log[i].x, pub |-> log[i].pub, r |-> log[i].response]]])>>, OutFile)
===============================================================================
