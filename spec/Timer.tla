------------------------------- MODULE Timer -------------------------------
(* The growing interval behind the DHT's periodic work (C15): waiting for it  *)
(* may be abandoned at any time (other traffic has to be handled), and that   *)
(* must not postpone it.  Time is in quanta.                                  *)
EXTENDS Conf

CONSTANTS Growth,   \* interval lengths by number of ticks done, the last one repeats
          Waits     \* for how long a caller waits before it turns to something else

GrowthDef == <<2, 3, 5, 6>>  \* min(2 + x^2 / 2 + x / 2, 6), as the harness configures it
WaitsDef == {1, 2, 3, 4, 7}

VARIABLES n, rem, in, out
vars == <<n, rem, in, out>>
View == <<n, rem>>

None == -1
Rounds == Len(Growth)
Length == Growth[n + 1]

Init == n = 0 /\ rem = None /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == n' = 0 /\ rem' = None /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

\* the first wait of a round starts the clock; rem = 0: due already
Wait(i) == LET r == IF rem = None THEN Length ELSE rem
           IN IF r <= i.d
              THEN /\ n' = MinOf(n + 1, Rounds - 1) /\ rem' = None
                   /\ out' = [op |-> "wait", fired |-> TRUE, after |-> r]
              ELSE /\ n' = n /\ rem' = r - i.d
                   /\ out' = [op |-> "wait", fired |-> FALSE, after |-> i.d]

\* time passes while nobody waits
Idle(i) == /\ n' = n
           /\ rem' = IF rem = None THEN None ELSE MaxOf(0, rem - i.d)
           /\ out' = [op |-> "idle"]

Step(i) == /\ in' = i
           /\ CASE i.op = "wait" -> Wait(i)
                [] i.op = "idle" -> Idle(i)

Inputs == [op : {"wait", "idle"}, d : Waits]
Next == \E i \in Inputs : Step(i)
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
\* never postponed: each unfinished wait brings the tick nearer by exactly what was waited
NotPostponed == [][(in'.op = "wait" /\ rem # None) =>
                      IF out'.fired THEN out'.after = rem ELSE rem' = rem - in'.d]_vars
NeverLate == [][in'.op = "wait" => out'.after <= Length]_vars
\* not early either
NotEarly == [][(in'.op = "wait" /\ out'.fired /\ rem = None) => out'.after = Length]_vars
=============================================================================
