----------------------------- MODULE ServerCheck -----------------------------
(* The server with a client that says whatever it likes, up to a number of messages. *)
EXTENDS Server
CONSTANTS Paths, Contents, Messages, Ops
VARIABLE left
all == <<vars, left>>
For(p) == ContentsFor(p) \cap Contents
Init == /\ left = Messages
        /\ \E d \in [Paths -> Contents \cup {None}] : (\A p \in Paths : d[p] \in For(p) \cup {None})
             /\ ServerInit(d, [root |-> "templates", dirs |-> {"src"}, hide |-> FALSE])
Client == /\ left > 0 /\ left' = left - 1
          /\ \E op \in Ops : \E p \in Paths :
               IF op \in {"open", "change"}
               THEN \E c \in For(p) : (op = "change" => open[p] # None \/ \E i \in 1..Len(inq) : inq[i].op = "open" /\ inq[i].p = p)
                                   /\ (\A i \in 1..Len(inq) : ~(op = "change" /\ inq[i].op = "close" /\ inq[i].p = p))
                                   /\ Send([op |-> op, p |-> p, c |-> c])
               ELSE Send([op |-> op, p |-> p, c |-> None])
Inside == UNCHANGED left /\ (Main \/ Later \/ \E p \in Paths : Fire(p) \/ Publish(p))
Next == Client \/ Inside
Spec == Init /\ [][Next]_all /\ WF_all(UNCHANGED left /\ Main) /\ WF_all(UNCHANGED left /\ Later)
             /\ \A p \in Paths : WF_all(UNCHANGED left /\ Fire(p)) /\ WF_all(UNCHANGED left /\ Publish(p))
\* P15, P16: the server comes to rest, and then everything is current
Settles == <>[](left > 0 \/ Rest)
Quiet == (left = 0) ~> Rest
===============================================================================
