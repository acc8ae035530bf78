------------------------------ MODULE AtomSets ------------------------------
(***************************************************************************)
(* The abstract value domain.                                              *)
(*                                                                         *)
(* A bitmap denotes a set of integers.  The specification does not talk    *)
(* about individual integers but about ATOMS: the value space is cut by S+1*)
(* boundary points 0..S into S consecutive segments, and the values of each*)
(* segment are partitioned into C colours.  An atom is one (segment,colour)*)
(* class, an unknown non-empty set of integers; atom a lies in segment     *)
(* Seg(a).  Every bitmap that occurs is a union of atoms.                  *)
(*                                                                         *)
(* All set operations, comparisons, range operations between boundaries    *)
(* and order statistics at boundaries commute with the substitution of     *)
(* concrete, pairwise disjoint, non-empty integer sets for the atoms (a    *)
(* CONCRETIZATION, chosen by the replay harness: boundaries at container,  *)
(* word and universe edges; colours that are dense, sparse, interleaved,   *)
(* made of runs, of exactly 4096 values, ...).  One abstract transition    *)
(* therefore stands for infinitely many concrete calls.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS S, C

ASSUME S \in 1..15 /\ C \in 1..8 /\ S * C <= 30

Atom  == 0 .. (S * C - 1)
Point == 0 .. S                      \* boundary points
Seg(a) == a \div C

Pow2 == [i \in 0..29 |-> 2^i]

\* numeric code of a set of atoms (how sets cross to the harness)
Mask(A) == FoldSet(LAMBDA a, acc : acc + Pow2[a], 0, A)

\* atoms of the integer interval [boundary p, boundary q)
Rng(p, q) == { a \in Atom : p <= Seg(a) /\ Seg(a) < q }

Below(A, p)     == { a \in A : Seg(a) < p }
From(A, p)      == { a \in A : Seg(a) >= p }

\* the atoms that contain the smallest value of A at or above boundary p
FirstFrom(A, p) ==
    LET F == From(A, p) IN
    IF F = {} THEN {} ELSE LET s == Min({Seg(a) : a \in F}) IN {a \in F : Seg(a) = s}

\* the atoms that contain the largest value of A below boundary p
LastBelow(A, p) ==
    LET F == Below(A, p) IN
    IF F = {} THEN {} ELSE LET s == Max({Seg(a) : a \in F}) IN {a \in F : Seg(a) = s}

Xor(A, B) == (A \ B) \cup (B \ A)

Toggle(A, p, q) == Xor(A, Rng(p, q))
=============================================================================
