-------------------------------- MODULE Conf --------------------------------
(* Shared by every component specification: how transitions are handed to   *)
(* the conformance engine, and small helpers on sets and sequences.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

(* Sets are compared across the JSON boundary as sorted sequences. *)
Sorted(S) == SetToSortSeq(S, LAMBDA a, b: a < b)

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

(* One line per transition: source view, input, observation, target view. *)
EmitEdge(s, i, o, t) ==
    PrintT("EDGE " \o ToJson([s |-> s, i |-> i, o |-> o, t |-> t]))
=============================================================================
