-------------------------------- MODULE Queues --------------------------------
(***************************************************************************)
(* The tasks of the server and what they wait for.  The client's messages  *)
(* are taken by handlers (a few at a time), which put them into the queue  *)
(* of the main task and, for a request, wait for its answer.  The main     *)
(* task answers, hands batches of diagnostics to the publishing task, asks *)
(* for a later reset, and logs; the publishing task publishes and reports  *)
(* back to the main task.  Whatever is written waits for the client to     *)
(* read.  The properties: no state in which all wait for each other,       *)
(* everything sent is handled and answered, and in the order it was sent.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Room,        \* places in the queue of the main task; 0 is no limit
          Batches,     \* places in the queue of the publishing task; 0 is no limit
          Handlers,    \* messages of the client in work at the same time
          Pipe,        \* messages the client hasn't read yet
          Files,       \* files a reset publishes
          Total,       \* messages of the client
          Direct       \* the main task puts resets into its own queue itself

VARIABLES left,      \* how many messages the client has to send
          fresh,     \* handlers that haven't begun, in the order of their messages
          waiting,   \* senders in front of the queue of the main task, in order
          granted,   \* senders that have a place there, but don't know yet
          inq,       \* the queue of the main task
          last,      \* the latest message of the client the main task has taken, 0 for none
          swapped,   \* did it take an earlier one after it?
          asked,     \* requests whose handler waits for the main task
          replies,   \* responses to be written
          main,      \* what the main task is doing: <<>> or a sequence of things to do first
          later,     \* resets that are about to be asked for
          outq,      \* batches of diagnostics
          task,      \* the publishing task: what it still has to write, -1 for its report, 0 for nothing
          pipe,      \* what the client has to read
          done       \* what the client has been answered, and notifications handled
vars == <<left, fresh, waiting, granted, inq, last, swapped, asked, replies, main, later, outq, task, pipe, done>>

Kinds == {"ask", "save", "change", "reset", "command"}
Init == left = Total /\ fresh = <<>> /\ waiting = <<>> /\ granted = <<>> /\ inq = <<>> /\ last = 0 /\ swapped = FALSE /\ asked = 0 /\ replies = 0 /\ main = <<>> /\ later = 0
        /\ outq = <<>> /\ task = 0 /\ pipe = 0 /\ done = [answered |-> 0, asked |-> 0, handled |-> 0, told |-> 0]

order == <<last, swapped>>
line == <<fresh, waiting, granted, inq>>
Own(k) == [k |-> k, n |-> 0]
Senders == fresh \o SelectSeq(waiting \o granted, LAMBDA w : w.n > 0)
InWork == Len(Senders) + asked + replies
\* the client sends whenever a handler is free
Client == /\ left > 0 /\ InWork < Handlers /\ left' = left - 1
          /\ \E k \in Kinds : /\ fresh' = Append(fresh, [k |-> k, n |-> Total - left + 1])
                              /\ done' = IF k \in {"ask", "command"} THEN [done EXCEPT !.asked = @ + 1] ELSE [done EXCEPT !.told = @ + 1]
          /\ UNCHANGED <<waiting, granted, inq, order, asked, replies, main, later, outq, task, pipe>>
Free == Room = 0 \/ Len(inq) + Len(granted) < Room
\* what is in the queue at last
Put(w) == /\ inq' = Append(inq, w)
          /\ asked' = IF w.k = "ask" THEN asked + 1 ELSE asked
          \* a command is answered as soon as it is queued
          /\ replies' = IF w.k = "command" THEN replies + 1 ELSE replies
          /\ task' = IF w.k = "report" THEN 0 ELSE task
\* a handler begins: it takes a place or stands in line
Begin == /\ fresh # <<>> /\ fresh' = Tail(fresh)
         /\ IF Room = 0 \/ (Free /\ waiting = <<>>) THEN Put(Head(fresh)) /\ UNCHANGED waiting
            ELSE /\ waiting' = Append(waiting, Head(fresh)) /\ UNCHANGED <<inq, asked, replies, task>>
         /\ UNCHANGED <<left, granted, order, main, later, outq, pipe, done>>
\* the first in line gets a place ...
Grant == /\ waiting # <<>> /\ Free /\ granted' = Append(granted, Head(waiting)) /\ waiting' = Tail(waiting)
         /\ UNCHANGED <<left, fresh, inq, order, asked, replies, main, later, outq, task, pipe, done>>
\* ... and fills it when it comes to it
Enter == /\ granted # <<>> /\ granted' = Tail(granted) /\ Put(Head(granted))
         /\ UNCHANGED <<left, fresh, waiting, order, main, later, outq, pipe, done>>
Reply == /\ replies > 0 /\ pipe < Pipe /\ replies' = replies - 1 /\ pipe' = pipe + 1 /\ done' = [done EXCEPT !.answered = @ + 1]
         /\ UNCHANGED <<left, line, order, asked, main, later, outq, task>>

\* the main task takes a message and does what it leads to, step by step
Effects(k) == CASE k = "ask" -> <<"answer">> [] k = "save" -> <<"batch1", "handled">> [] k = "change" -> <<"timer", "handled">>
                [] k = "timer" -> <<"batch1">> [] k = "reset" -> <<"later", "handled">> [] k = "command" -> <<"later">>
                [] k = "read" -> <<"log", "batch">> [] OTHER -> <<>>
Take == /\ main = <<>> /\ inq # <<>> /\ main' = Effects(Head(inq).k) /\ inq' = Tail(inq)
        /\ IF Head(inq).n = 0 THEN UNCHANGED order
           ELSE /\ last' = Head(inq).n /\ swapped' = (swapped \/ Head(inq).n < last)
        /\ UNCHANGED <<left, fresh, waiting, granted, asked, replies, later, outq, task, pipe, done>>
Do == /\ main # <<>>
      /\ LET e == Head(main) IN
         CASE e = "answer" -> asked' = asked - 1 /\ replies' = replies + 1 /\ main' = Tail(main)
                              /\ UNCHANGED <<left, line, order, later, outq, task, pipe, done>>
           [] e = "handled" -> done' = [done EXCEPT !.handled = @ + 1] /\ main' = Tail(main)
                               /\ UNCHANGED <<left, line, order, asked, replies, later, outq, task, pipe>>
           [] e \in {"batch", "batch1"} ->
                /\ (Batches = 0 \/ Len(outq) < Batches) /\ outq' = Append(outq, IF e = "batch" THEN Files ELSE 1) /\ main' = Tail(main)
                /\ UNCHANGED <<left, line, order, asked, replies, later, task, pipe, done>>
           [] e = "log" -> pipe < Pipe /\ pipe' = pipe + 1 /\ main' = Tail(main)
                           /\ UNCHANGED <<left, line, order, asked, replies, later, outq, task, done>>
           [] e = "later" -> IF Direct
                THEN Free /\ waiting = <<>> /\ inq' = Append(inq, Own("read")) /\ main' = Tail(main)
                     /\ UNCHANGED <<left, fresh, waiting, granted, order, asked, replies, later, outq, task, pipe, done>>
                ELSE later' = later + 1 /\ main' = Tail(main)
                     /\ UNCHANGED <<left, line, order, asked, replies, outq, task, pipe, done>>
           \* a timer that runs out at once, another one later makes no difference here
           [] e = "timer" -> waiting' = Append(waiting, Own("timer")) /\ main' = Tail(main)
                             /\ UNCHANGED <<left, fresh, granted, inq, order, asked, replies, later, outq, task, pipe, done>>
           [] OTHER -> FALSE
\* what was put off stands in line
Later == /\ later > 0 /\ later' = later - 1 /\ waiting' = Append(waiting, Own("read"))
         /\ UNCHANGED <<left, fresh, granted, inq, order, asked, replies, main, outq, task, pipe, done>>

\* the publishing task
Batch == /\ task = 0 /\ outq # <<>> /\ task' = Head(outq) /\ outq' = Tail(outq)
         /\ UNCHANGED <<left, line, order, asked, replies, main, later, pipe, done>>
Write == /\ task > 0 /\ pipe < Pipe /\ pipe' = pipe + 1
         /\ IF task = 1 THEN task' = -1 /\ waiting' = Append(waiting, Own("report")) ELSE task' = task - 1 /\ UNCHANGED waiting
         /\ UNCHANGED <<left, fresh, granted, inq, order, asked, replies, main, later, outq, done>>
Read == pipe > 0 /\ pipe' = pipe - 1 /\ UNCHANGED <<left, line, order, asked, replies, main, later, outq, task, done>>

Rest == /\ left = 0 /\ fresh = <<>> /\ waiting = <<>> /\ granted = <<>> /\ inq = <<>> /\ asked = 0 /\ replies = 0 /\ main = <<>> /\ later = 0 /\ outq = <<>>
        /\ task = 0 /\ pipe = 0
Idle == Rest /\ UNCHANGED vars

Next == Client \/ Begin \/ Grant \/ Enter \/ Reply \/ Take \/ Do \/ Later \/ Batch \/ Write \/ Read \/ Idle
Spec == Init /\ [][Next]_vars /\ WF_vars(Client) /\ WF_vars(Begin) /\ WF_vars(Grant) /\ WF_vars(Enter) /\ WF_vars(Reply) /\ WF_vars(Take) /\ WF_vars(Do)
        /\ WF_vars(Later) /\ WF_vars(Batch) /\ WF_vars(Write) /\ WF_vars(Read)

\* (absence of deadlock is checked by TLC: Idle is the only state that may stay)
Once == done.answered <= done.asked /\ done.handled <= done.told
AllDone == Rest => done.answered = done.asked /\ done.handled = done.told /\ done.asked + done.told = Total
InOrder == ~swapped
Bounds == (Room = 0 \/ Len(inq) + Len(granted) <= Room) /\ pipe <= Pipe /\ InWork <= Handlers
ComesToRest == <>Rest
===============================================================================
