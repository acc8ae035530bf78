------------------------------- MODULE Offset -------------------------------
(***************************************************************************)
(* Shifting a set of integers inside a bounded universe.                   *)
(*                                                                         *)
(* The explicit model: every set A of integers below U, every offset o,    *)
(* Shift(A, o) = the values v + o, v in A, that stay in the universe.      *)
(* The laws below are what SetMachine's action "off" (shift so that exactly*)
(* the segments at/above, or below, a boundary survive, then shift back)   *)
(* relies on, and what the replayer uses to check the shifted bitmap: the  *)
(* survivors are those above or those below a threshold, shifting back     *)
(* restores exactly them, offsets compose, and shifting distributes over   *)
(* the set operations.                                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS U
Univ == 0..(U-1)
Shift(A, o) == { v + o : v \in A } \cap Univ
VARIABLES A, B, o, p
vars == <<A, B, o, p>>
Init == A \in SUBSET Univ /\ B \in SUBSET Univ /\ o = 0 /\ p = 0
Offsets == (0 - U - 1)..(U + 1)
Next == /\ o = 0 /\ p = 0
        /\ o' \in Offsets /\ p' \in Offsets
        /\ UNCHANGED <<A, B>>
Spec == Init /\ [][Next]_vars
Survivors == Shift(Shift(A, o), 0 - o) = (IF o < 0 THEN {v \in A : v >= 0 - o} ELSE {v \in A : v < U - o})
Nearest   == (o < 0 /\ o > 0 - U) => Shift({0 - o}, o) = {0} /\ Shift({0 - o - 1}, o) = {}
Compose   == (o >= 0) = (p >= 0) => Shift(Shift(A, o), p) = Shift(A, o + p)
Distrib   == /\ Shift(A \cup B, o) = Shift(A, o) \cup Shift(B, o)
             /\ Shift(A \cap B, o) = Shift(A, o) \cap Shift(B, o)
             /\ Shift(A \ B, o) = Shift(A, o) \ Shift(B, o)
Laws == Survivors /\ Nearest /\ Compose /\ Distrib
=============================================================================
