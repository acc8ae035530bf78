------------------------------- MODULE ArtMap -------------------------------
(***************************************************************************)
(* The ordered index behind 64-bit bitmaps: a sorted map from 48-bit keys  *)
(* to values, with one iterator.                                           *)
(*                                                                         *)
(* Keys are grouped in atoms as in AtomSets (segment, colour): the replayer*)
(* chooses the concrete keys behind each atom - families sharing prefixes  *)
(* of any length, with 1..256 children per inner node.  m[a] is 0 when the *)
(* keys of atom a are absent, otherwise the version of their values.       *)
(*                                                                         *)
(* The iterator stands on the least (kind "min") or greatest ("max") key of*)
(* the atoms it.a, or past an end ("end"), or is unusable ("none": fresh,  *)
(* or the map was changed behind its back).                                *)
(***************************************************************************)
EXTENDS AtomSets, Randomization

CONSTANTS V,      \* versions of values
          Depth,
          OpSeq   \* weighted calls of simulated histories

VARIABLES m, it, hist
vars == <<m, it, hist>>

OpSet == { OpSeq[i] : i \in DOMAIN OpSeq }
Unusable == [k |-> "none", a |-> {}]
Ended    == [k |-> "end",  a |-> {}]
At(k, A) == IF A = {} THEN Ended ELSE [k |-> k, a |-> A]

Here == { a \in Atom : m[a] # 0 }
SegOf(A) == IF A = {} THEN 0 ELSE Seg(CHOOSE a \in A : TRUE)
On == it.k \in {"min", "max"}
\* on the first key of a segment
AtStart == it.k = "min" /\ it.a = {a \in Here : Seg(a) = SegOf(it.a)}

Out(ok, m2, it2, ret) == [ok |-> ok, m |-> m2, it |-> it2, ret |-> ret]
Same(ok, it2, ret) == Out(ok, m, it2, ret)
With(A, v) == [a \in Atom |-> IF a \in A THEN v ELSE m[a]]

\* op: the call; p a boundary; k variant; A a set of atoms; v a version
Do(op, p, k, A, v) ==
  CASE
  \* insert every key of A (absent so far)
     op = "ins"   -> Out(A # {} /\ A \cap Here = {}, With(A, v), Unusable, 0)
  \* change the values through the pointers find returns
  [] op = "set"   -> Out(A # {}, With(A \cap Here, v), it, 0)
  \* erase every key of A, present or not
  [] op = "del"   -> Out(A # {}, With(A, 0), Unusable, 0)
  [] op = "find"  -> Same(A # {}, it, 0)
  [] op = "empty" -> Same(TRUE, it, IF Here = {} THEN 1 ELSE 0)
  \* full iteration in both directions, and bounds for keys in and around A
  [] op = "all"   -> Same(TRUE, it, 0)
  [] op = "around" -> Same(A # {}, it, 0)
  [] op = "first" -> Same(TRUE, At("min", FirstFrom(Here, 0)), 0)
  [] op = "last"  -> Same(TRUE, At("max", LastBelow(Here, S)), 0)
  \* k = 0: lower bound of a key between the segments p-1 and p; k = 1: upper bound of such a key
  [] op = "lb"    -> Same(TRUE, At("min", FirstFrom(Here, p)), 0)
  \* seek forward from where the iterator stands (or from past an end)
  [] op = "seek"  -> Same((On /\ SegOf(it.a) < p) \/ it.k = "end", At("min", FirstFrom(Here, p)), 0)
  \* step forward until a key at/above boundary p, backward until a key below it
  [] op = "fwd"   -> Same(On /\ SegOf(it.a) < p, At("min", FirstFrom(Here, p)), 0)
  [] op = "bwd"   -> Same(On /\ SegOf(it.a) >= p, At("max", LastBelow(Here, p)), 0)
  \* insert through the iterator, ascending (k = 0) or descending
  [] op = "iins"  -> Out(A # {} /\ A \cap Here = {} /\ it.k # "none", With(A, v),
                         IF k = 0 THEN At("max", LastBelow(A, S)) ELSE At("min", FirstFrom(A, 0)), 0)
  \* walk forward to boundary p, erasing the keys of A on the way
  [] op = "iera"  -> Out(AtStart /\ SegOf(it.a) < p,
                         With({a \in A \cap Here : SegOf(it.a) <= Seg(a) /\ Seg(a) < p}, 0),
                         At("min", FirstFrom(Here, p)), 0)
  [] op = "shrink" -> Same(TRUE, Unusable, 0)
  \* shrink, serialize, and compare a view of the bytes
  [] op = "view"  -> Same(TRUE, Unusable, 0)
  [] OTHER -> Same(FALSE, it, 0)

Code(f) == FoldSet(LAMBDA a, acc : acc + f[a] * Pow2[2 * a], 0, Atom)
ItCode(i) == CASE i.k = "none" -> 0 [] i.k = "min" -> 1 [] i.k = "max" -> 2 [] i.k = "end" -> 3

Take(op, p, k, A, v) ==
  LET o == Do(op, p, k, A, v) IN
  /\ o.ok
  /\ m' = o.m /\ it' = o.it
  /\ hist' = Append(hist, <<op, p, k, Mask(A), v, Code(o.m), ItCode(o.it), Mask(o.it.a), o.ret>>)
  /\ (Len(hist') = Depth + 1 => PrintT(ToString(<<"AM", hist'>>)))

Start(f) == <<"init", 0, 0, 0, 0, Code(f), 0, 0, 0>>

\* ---- every history of Depth calls from every map
UsesP == {"lb", "seek", "fwd", "bwd", "iera"}
UsesK == {"lb", "iins"}
UsesA == {"ins", "set", "del", "find", "around", "iins", "iera"}
EnumInit == m \in [Atom -> 0..V] /\ it = Unusable /\ hist = <<Start(m)>>
EnumNext ==
  /\ Len(hist) <= Depth
  /\ \E op \in OpSet : \E p \in (IF op \in UsesP THEN Point ELSE {0}), k \in (IF op \in UsesK THEN 0..1 ELSE {0}),
                         A \in (IF op \in UsesA THEN SUBSET Atom ELSE {{}}) :
       Take(op, p, k, A, 1)
EnumSpec == EnumInit /\ [][EnumNext]_vars

\* ---- simulated histories
RandSet == LET w == RandomElement(1..7) IN
  CASE w = 1 -> {a \in Atom : RandomElement(1..2) = 1}
    [] w = 2 -> {RandomElement(Atom), RandomElement(Atom)}
    [] w = 3 -> LET p == RandomElement(Point) q == RandomElement(Point) IN Rng(p, q)
    [] w = 4 -> LET c == RandomElement(0..(C-1)) IN {a \in Atom : a % C = c}
    [] OTHER -> {RandomElement(Atom)}
Init == m = [a \in Atom |-> 0] /\ it = Unusable /\ hist = <<Start(m)>>
RandNext ==
  /\ Len(hist) <= Depth
  /\ \E op \in {OpSeq[RandomElement(1..Len(OpSeq))]}, p \in {RandomElement(Point)}, k \in {RandomElement(0..1)}, A0 \in {RandSet},
        v \in {RandomElement(1..V)} :
     \E A \in {IF op \in {"ins", "iins"} THEN A0 \ Here ELSE IF op = "del" /\ k = 1 THEN A0 \cap Here ELSE A0} :
       IF Do(op, p, k, A, v).ok THEN Take(op, p, k, A, v)
       ELSE IF ~On /\ Do("lb", p, k, {}, 1).ok THEN Take("lb", p, k, {}, 1)
       ELSE Take("all", 0, 0, {}, 1)
RandSpec == Init /\ [][RandNext]_vars

\* ---- what the specification itself must satisfy
TypeOK == /\ m \in [Atom -> 0..V]
          /\ it.k \in {"none", "min", "max", "end"} /\ it.a \subseteq Atom
\* an iterator that stands somewhere stands on keys of the map, within one segment
OnKeys == On => it.a # {} /\ it.a \subseteq Here /\ \A a, b \in it.a : Seg(a) = Seg(b)
\* movements do not change the map
Moves == [][ hist'[Len(hist')][1] \in {"first", "last", "lb", "seek", "fwd", "bwd", "all", "find", "around", "shrink", "view", "empty"}
             => m' = m ]_vars
=============================================================================
