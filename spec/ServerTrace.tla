----------------------------- MODULE ServerTrace -----------------------------
(***************************************************************************)
(* Is a recorded trace of the real server one the specification allows?    *)
(* A trace is what the client sent and received, in the order it happened; *)
(* what the server does inside is guessed.                                 *)
(***************************************************************************)
EXTENDS Server, Json, CSV, IOUtils

CONSTANTS TraceFile, OutFile

Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, answers
tvars == <<vars, tr, l, answers>>
\* (evaluated once)
Trace == [i \in 1..Len(Traces) |-> Traces[i].events]

Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ answers = <<>>
        /\ LET d == Traces[tr].disk IN
             ServerInit([p \in {d[i].p : i \in 1..Len(d)} |-> (CHOOSE x \in Range(d) : x.p = p).c],
                        [root |-> "templates", dirs |-> {"src"}, hide |-> FALSE])

Ev == Trace[tr][l]
More == l <= Len(Trace[tr])
\* symbols by name and place
Names_(c) == {[n |-> d.n, s |-> d.s, e |-> d.e] : d \in Range(An[c].defs)} \cup
             (IF c \in SourceContents THEN {[n |-> r.n, s |-> r.s, e |-> r.e] : r \in Range(RefsIn[c])} ELSE {})
AnswerNow(p) == IF known[p] = None THEN [null |-> TRUE, symbols |-> {}] ELSE [null |-> FALSE, symbols |-> Names_(known[p])]

TakeSend == /\ More /\ Ev.ev = "send" /\ l' = l + 1 /\ UNCHANGED <<tr, answers>>
            /\ Send([op |-> Ev.op, p |-> Ev.p, c |-> Ev.c, id |-> Ev.id])
TakePub == /\ More /\ Ev.ev = "pub" /\ l' = l + 1 /\ UNCHANGED <<tr, answers>>
           /\ Ev.p \in Files /\ Publish(Ev.p) /\ shown'[Ev.p] = Range(Ev.diags)
TakeAnswer == /\ More /\ Ev.ev = "answer" /\ l' = l + 1 /\ UNCHANGED <<vars, tr, answers>>
              /\ \E i \in 1..Len(answers) : answers[i] = [id |-> Ev.id, a |-> [null |-> Ev.null, symbols |-> Range(Ev.symbols)]]
Inside == UNCHANGED <<tr, l>> /\
  \/ Main /\ (IF Head(inq).op = "ask" THEN answers' = Append(answers, [id |-> Head(inq).id, a |-> AnswerNow(Head(inq).p)]) ELSE UNCHANGED answers)
  \/ UNCHANGED answers /\ (Later \/ \E p \in Files : Fire(p))
Next == TakeSend \/ TakePub \/ TakeAnswer \/ Inside
Spec == Init /\ [][Next]_tvars

\* Everything was explained, and nothing is missing: a timer that is left can only repeat what is known.
Explained == /\ ~More /\ inq = <<>> /\ outq = <<>> /\ later = 0 /\ shown = due
             /\ \A p \in Docs : known[p] = Text(p)
Accept == Explained => CSVWrite("%1$s", <<ToJson(tr)>>, OutFile)
\* how far a trace could be explained
Progress == CSVWrite("%1$s", <<ToJson(<<tr, l>>)>>, OutFile)
===============================================================================
