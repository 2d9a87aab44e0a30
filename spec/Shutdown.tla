----------------------------- MODULE Shutdown -----------------------------
(* The shutdown channel (C24).  Slots are tasks holding a shutdown handle:   *)
(* "idle" holds one, "listening" is waiting for the request, "told" has been *)
(* notified (and still holds it until dropped).                              *)
EXTENDS Conf

CONSTANTS N

VARIABLES slot, req, waiter, in, out
vars == <<slot, req, waiter, in, out>>
View == <<slot, req, waiter>>

Slots == 0..(N - 1)
Alive(s) == {k \in Slots : s[k] # "free"}
Told(s) == {k \in Slots : s[k] = "told"}
Listeners(s) == {k \in Slots : s[k] = "listening"}

\* req: "no", "sent", "lost" (the requesting side went away without asking)
\* waiter: "none", "waiting", "over"
Obs(op) == [op |-> op, told |-> Sorted(Told(slot')), over |-> (waiter' = "over")]

Init == /\ slot = [k \in Slots |-> IF k = 0 THEN "idle" ELSE "free"]
        /\ req = "no" /\ waiter = "none"
        /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == /\ slot' = [k \in Slots |-> IF k = 0 THEN "idle" ELSE "free"]
         /\ req' = "no" /\ waiter' = "none"
         /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

Wake(s, r) == IF r = "sent" THEN [k \in Slots |-> IF s[k] = "listening" THEN "told" ELSE s[k]] ELSE s
Finish(s, w) == IF w = "waiting" /\ Alive(s) = {} THEN "over" ELSE w

Clone(i) == /\ slot[i.h] # "free" /\ slot[i.k] = "free"
            /\ slot' = [slot EXCEPT ![i.k] = "idle"]
            /\ UNCHANGED <<req, waiter>>
Drop(i) == /\ slot[i.h] # "free"
           /\ slot' = [slot EXCEPT ![i.h] = "free"]
           /\ req' = req /\ waiter' = Finish(slot', waiter)
Listen(i) == /\ slot[i.h] = "idle"
             /\ slot' = Wake([slot EXCEPT ![i.h] = "listening"], req)
             /\ UNCHANGED <<req, waiter>>
\* a waiting holder may turn to other work and listen again later: nothing is lost
Unlisten(i) == /\ slot[i.h] = "listening"
               /\ slot' = [slot EXCEPT ![i.h] = "idle"]
               /\ UNCHANGED <<req, waiter>>
\* the requesting side asks and then waits for everybody
Send(i) == /\ req = "no"
           /\ req' = "sent"
           /\ slot' = Wake(slot, "sent")
           /\ waiter' = Finish(slot', "waiting")
Lose(i) == /\ req = "no"
           /\ req' = "lost" /\ UNCHANGED <<slot, waiter>>

\* The same calls made by truly concurrent callers (each sees only its own result).
Poll_(i) == /\ slot[i.h] = "idle" /\ UNCHANGED <<slot, req, waiter>>
            /\ out' = [op |-> "poll_", told |-> req = "sent"]
Clone_(i) == Clone(i) /\ out' = [op |-> "clone_"]
Drop_(i) == Drop(i) /\ out' = [op |-> "drop_"]
Send_(i) == /\ req = "no" /\ req' = "sent" /\ slot' = slot
            /\ waiter' = Finish(slot, "waiting") /\ out' = [op |-> "send_"]
Over_(i) == /\ UNCHANGED <<slot, req, waiter>>
            /\ out' = [op |-> "over_", over |-> waiter = "over"]

Local == {"poll_", "clone_", "drop_", "send_", "over_"}

Step(i) == /\ in' = i
           /\ CASE i.op = "clone" -> Clone(i)
                [] i.op = "drop" -> Drop(i)
                [] i.op = "listen" -> Listen(i)
                [] i.op = "unlisten" -> Unlisten(i)
                [] i.op = "send" -> Send(i)
                [] i.op = "lose" -> Lose(i)
                [] i.op = "poll_" -> Poll_(i)
                [] i.op = "clone_" -> Clone_(i)
                [] i.op = "drop_" -> Drop_(i)
                [] i.op = "send_" -> Send_(i)
                [] i.op = "over_" -> Over_(i)
           /\ (i.op \notin Local => out' = Obs(i.op))

Inputs == {[op |-> "clone", h |-> h, k |-> k] : h \in Slots, k \in Slots}
          \cup [op : {"drop", "listen", "unlisten"}, h : Slots]
          \cup {[op |-> "send"], [op |-> "lose"]}
Next == \E i \in Inputs : Step(i)
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
WaitIsExact == waiter # "none" => (waiter = "over" <=> Alive(slot) = {})
AllTold == req = "sent" => Listeners(slot) = {}
NobodyToldEarly == Told(slot) # {} => req = "sent"
=============================================================================
