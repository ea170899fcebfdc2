---------------------------- MODULE DebounceTrace ----------------------------
(***************************************************************************)
(* Is what a real server did in time what Debounce allows?  Times are       *)
(* milliseconds of the client's clock, so bounds are generous: Slack is     *)
(* how long an analysis may take to arrive after the last edit, and edits   *)
(* less than Gap apart are typing, of which few may be analysed.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS TraceFile, OutFile, Slack, Gap

Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, sent, shown, causes, pubs, typed, early, verdict
vars == <<tr, l, sent, shown, causes, pubs, typed, early, verdict>>
Trace == [i \in 1..Len(Traces) |-> Traces[i].events]
Docs == UNION {{Trace[i][k].d : k \in 1..Len(Trace[i])} : i \in 1..Len(Trace)} \ {""}
\* sent[d]: the times at which the versions of d were sent, and whether they were saved
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ sent = [d \in Docs |-> <<>>] /\ shown = [d \in Docs |-> 0]
        /\ causes = [d \in Docs |-> 0] /\ pubs = [d \in Docs |-> 0] /\ typed = [d \in Docs |-> 0] /\ early = [d \in Docs |-> 0]
        /\ verdict = "fine"
Ev == Trace[tr][l]
Newest(d) == Len(sent[d])
\* versions the server should have shown by now
Overdue(d) == Newest(d) > 0 /\ shown[d] < Newest(d) /\ Ev.t - sent[d][Newest(d)].t > Slack
Step ==
  /\ l <= Len(Trace[tr]) /\ verdict = "fine" /\ l' = l + 1 /\ UNCHANGED tr
  /\ IF \E d \in Docs : Overdue(d)
     THEN verdict' = "late" /\ UNCHANGED <<sent, shown, causes, pubs, typed, early>>
     ELSE
     CASE Ev.ev \in {"open", "edit"} ->
            /\ sent' = [sent EXCEPT ![Ev.d] = Append(@, [t |-> Ev.t, now |-> Ev.ev = "open"])]
            /\ causes' = [causes EXCEPT ![Ev.d] = @ + 1]
            /\ typed' = [typed EXCEPT ![Ev.d] = IF Newest(Ev.d) > 0 /\ Ev.t - sent[Ev.d][Newest(Ev.d)].t < Gap THEN @ + 1 ELSE @]
            /\ UNCHANGED <<shown, pubs, early, verdict>>
       [] Ev.ev = "save" ->
            /\ sent' = [sent EXCEPT ![Ev.d][Newest(Ev.d)].now = TRUE] /\ causes' = [causes EXCEPT ![Ev.d] = @ + 1]
            /\ UNCHANGED <<shown, pubs, typed, early, verdict>>
       [] Ev.ev = "pub" ->
            /\ IF Ev.v < shown[Ev.d] \/ Ev.v > Newest(Ev.d) \/ Ev.v < 1 THEN verdict' = "out of order"
               ELSE IF pubs[Ev.d] >= causes[Ev.d] THEN verdict' = "more analyses than reasons" ELSE UNCHANGED verdict
            /\ shown' = [shown EXCEPT ![Ev.d] = Ev.v] /\ pubs' = [pubs EXCEPT ![Ev.d] = @ + 1]
            /\ early' = [early EXCEPT ![Ev.d] =
                 IF Ev.v >= 1 /\ Ev.v < Newest(Ev.d) /\ ~sent[Ev.d][Ev.v].now /\ sent[Ev.d][Ev.v + 1].t - sent[Ev.d][Ev.v].t < Gap
                 THEN @ + 1 ELSE @]
            /\ UNCHANGED <<sent, causes, typed>>
       [] OTHER -> UNCHANGED <<sent, shown, causes, pubs, typed, early, verdict>>
\* the last event of a trace comes long after the others
Finish ==
  /\ l > Len(Trace[tr]) /\ verdict = "fine" /\ l' = l /\ UNCHANGED <<tr, sent, shown, causes, pubs, typed, early>>
  /\ verdict' = IF \E d \in Docs : shown[d] # Newest(d) THEN "not analysed"
                ELSE IF \E d \in Docs : typed[d] >= 6 /\ 2 * early[d] > typed[d] THEN "analysed for every edit" ELSE "accepted"
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Report == verdict # "fine" => CSVWrite("%1$s", <<ToJson([tr |-> tr, l |-> l - 1, verdict |-> verdict, typed |-> typed, early |-> early])>>, OutFile)
===============================================================================
