-------------------------------- MODULE Server --------------------------------
(***************************************************************************)
(* How the server works inside: messages of the client and of its own      *)
(* timers go through one queue, one task handles them in order, another    *)
(* publishes what comes out of it.  Nothing waits for anything here, so    *)
(* every interleaving of edits, timers and publications is possible.       *)
(***************************************************************************)
EXTENDS Workspace

VARIABLES disk, cfg,
          open,    \* text of the open documents (as the main task has it)
          known,   \* text of each file when it was analysed last
          inq,     \* messages for the main task
          timers,  \* running timers: the document, and how many resets there were before
          resets,  \* how often everything was read again
          later,   \* how many resets are about to be queued
          outq,    \* what the publishing task has to do: batches of publications
          shown,   \* what the client saw last
          due      \* what the last analysis of each file came to
vars == <<disk, cfg, open, known, inq, timers, resets, later, outq, shown, due>>
Files == DOMAIN disk
Docs == Files \ Nothing

Silent == {[s |-> -1, e |-> -1, m |-> "silent"]}     \* nothing was published yet

ServerInit(d, c) ==
  /\ disk = d /\ cfg = c /\ open = [p \in DOMAIN d |-> None] /\ inq = <<>> /\ timers = {} /\ resets = 0 /\ later = 0
  /\ known = Fresh(d, open, c)
  /\ LET pubs == AllPublished(known, known, open, d, c) IN
       /\ outq = IF DOMAIN pubs = {} THEN <<>> ELSE <<pubs>>
       /\ due = [p \in DOMAIN d |-> IF p \in DOMAIN pubs THEN pubs[p] ELSE Silent]
  /\ shown = [p \in DOMAIN d |-> Silent]

Publishing(pubs) ==
  /\ outq' = IF DOMAIN pubs = {} THEN outq ELSE Append(outq, pubs)
  /\ due' = [p \in Files |-> IF p \in DOMAIN pubs THEN pubs[p] ELSE due[p]]

(* ------------------------------ the client ----------------------------- *)
\* op: open, change, save, close, reset; c is the new text
Send(msg) == inq' = Append(inq, msg) /\ UNCHANGED <<disk, cfg, open, known, timers, resets, later, outq, shown, due>>

(* ----------------------------- the main task --------------------------- *)
Text(p) == IF open[p] # None THEN open[p] ELSE known[p]
Analyse_(p, k, d) == Publishing(OnePublished(p, k, d, cfg))

Handle(m) ==
  CASE m.op = "open" ->
         /\ open' = [open EXCEPT ![m.p] = m.c] /\ known' = [known EXCEPT ![m.p] = m.c]
         /\ Analyse_(m.p, known', disk) /\ UNCHANGED <<timers, resets, later>>
    [] m.op = "change" ->
         /\ open' = [open EXCEPT ![m.p] = m.c] /\ timers' = {t \in timers : t # <<m.p, resets>>} \cup {<<m.p, resets>>}
         /\ UNCHANGED <<known, resets, later, outq, due>>
    [] m.op \in {"save", "timer"} ->
         IF Text(m.p) = None THEN UNCHANGED <<open, known, timers, resets, later, outq, due>>
         ELSE /\ known' = [known EXCEPT ![m.p] = Text(m.p)]
              /\ Analyse_(m.p, known', disk) /\ UNCHANGED <<open, timers, resets, later>>
    [] m.op = "close" ->
         IF open[m.p] = None THEN UNCHANGED <<open, known, timers, resets, later, outq, due>>
         ELSE /\ open' = [open EXCEPT ![m.p] = None] /\ known' = [known EXCEPT ![m.p] = disk[m.p]]
              /\ Analyse_(m.p, known', disk) /\ UNCHANGED <<timers, resets, later>>
    [] m.op = "reset" -> later' = later + 1 /\ UNCHANGED <<open, known, timers, resets, outq, due>>
    [] m.op = "read" ->
         /\ known' = Fresh(disk, open, cfg) /\ Publishing(AllPublished(known, known', open, disk, cfg))
         \* timers that run now aren't stopped by later edits any more
         /\ resets' = resets + 1 /\ UNCHANGED <<open, timers, later>>
    [] OTHER -> UNCHANGED <<open, known, timers, resets, later, outq, due>>

Main == inq # <<>> /\ Handle(Head(inq)) /\ inq' = Tail(inq) /\ UNCHANGED <<disk, cfg, shown>>

(* --------------------------- timers and others ------------------------- *)
Fire(p) == /\ \E t \in timers : t[1] = p /\ timers' = timers \ {t} /\ inq' = Append(inq, [op |-> "timer", p |-> p, c |-> None])
           /\ UNCHANGED <<disk, cfg, open, known, resets, later, outq, shown, due>>
Later == /\ later > 0 /\ later' = later - 1 /\ inq' = Append(inq, [op |-> "read", p |-> None, c |-> None])
         /\ UNCHANGED <<disk, cfg, open, known, timers, resets, outq, shown, due>>
\* one of the batch is published, in any order
Publish(p) ==
  /\ outq # <<>> /\ p \in DOMAIN Head(outq)
  /\ shown' = [shown EXCEPT ![p] = Head(outq)[p]]
  /\ LET rest == [x \in DOMAIN Head(outq) \ {p} |-> Head(outq)[x]] IN
       outq' = IF DOMAIN rest = {} THEN Tail(outq) ELSE <<rest>> \o Tail(outq)
  /\ UNCHANGED <<disk, cfg, open, known, inq, timers, resets, later, due>>

(* ------------------------------ properties ----------------------------- *)
Rest == inq = <<>> /\ outq = <<>> /\ timers = {} /\ later = 0
\* P16: at rest the client sees what the last analysis came to, which was that of the present text
LastIsDue == Rest => shown = due
LastIsCurrent == Rest => \A p \in Docs : known[p] = Text(p)
\* P23: what other files know of a document is a text it had when it was analysed
\* and everything still to come of it is in a queue or a timer
NothingLost == \A p \in Docs : open[p] # None /\ known[p] # open[p] =>
  (\E t \in timers : t[1] = p) \/ \E i \in 1..Len(inq) : inq[i].op \in {"timer", "save", "read", "open", "close"} /\ (inq[i].p = p \/ inq[i].op = "read")
\* what is waiting to be published ends with what is due
DueIsLast == \A p \in Files :
  LET batches == {i \in 1..Len(outq) : p \in DOMAIN outq[i]}
  IN due[p] = IF batches = {} THEN shown[p] ELSE outq[CHOOSE i \in batches : \A j \in batches : j <= i][p]
===============================================================================
