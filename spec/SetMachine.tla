----------------------------- MODULE SetMachine -----------------------------
(***************************************************************************)
(* The bitmap library as a state machine over a pool of bitmaps.           *)
(*                                                                         *)
(* State: a pool of N bitmaps ("registers"); each holds a set of atoms, may*)
(* be a read-only view over a serialized buffer (ro) and may be in the     *)
(* middle of a lazy computation (lz: 0 no, 1 lazy union, 2 lazy symmetric  *)
(* difference).  One action = one public call; Do(...) gives, for every    *)
(* call, the state after it and the answer it must return.  The answer is  *)
(* a term over atom sets (<<"card", {A}>> : the number of integers in A,   *)
(* <<"min", {A}>> : the smallest one, ...), which the replay harness       *)
(* evaluates in each concretization.                                       *)
(*                                                                         *)
(* The same operator Do serves the exhaustive configurations (every pair of*)
(* sets x every operation x every argument, Pairs*.cfg), the simulated long*)
(* histories (Hist*.cfg) and every implementation that is bound to it: the *)
(* 32- and 64-bit C API, both C++ classes and the dense bitset.  OpSeq     *)
(* says which calls the implementation under test has, with weights.       *)
(***************************************************************************)
EXTENDS AtomSets, Randomization

CONSTANTS N,         \* number of registers
          OpSeq,     \* operations to draw from (a sequence: repetitions are weights)
          AliasOps,  \* in-place operations for which destination = operand is allowed
          Ways,      \* how many variants (overloads) of an operation exist
          Dens,      \* how dense generated sets are, 1..Dens: higher = sparser
          Depth,     \* length of a generated history
          Exhaustive \* TRUE: enumerate all arguments; FALSE: draw them at random

ASSUME N \in 2..6

Reg == 0..(N-1)
OpSet == { OpSeq[i] : i \in DOMAIN OpSeq }

VARIABLES reg,   \* the pool
          step,  \* number of calls made
          ev     \* the last call with its expected answer (observation only)

vars == <<reg, step, ev>>

Bm(s) == [s |-> s, ro |-> FALSE, lz |-> 0]
Empty == Bm({})

\* ---- answers -------------------------------------------------------------
NoRet        == <<"none", <<>> >>
Bool(b)      == <<"bool", <<IF b THEN 1 ELSE 0>> >>
Card(A)      == <<"card", <<Mask(A)>> >>
Cards(f)     == <<"cards", f>>
MinOf(A)     == <<"min", <<Mask(A)>> >>     \* A = {} : "no such value"
MaxOf(A)     == <<"max", <<Mask(A)>> >>
Ratio(A, B)  == <<"ratio", <<Mask(A), Mask(B)>> >>
List(A)      == <<"list", <<Mask(A)>> >>
Pos(a, A, l) == <<"pos", <<Pow2[a], Mask(A), l>> >>  \* index in A of the least (l=0) or greatest (l=1) value of atom a

\* ---- outcomes ------------------------------------------------------------
Yes(r, ret)  == [ok |-> TRUE,  reg |-> r, ret |-> ret]
No           == [ok |-> FALSE, reg |-> reg, ret |-> NoRet]
If(c, o)     == IF c THEN o ELSE No
Put(d, b, ret) == Yes([reg EXCEPT ![d] = b], ret)
Same(ret)    == Yes(reg, ret)

V(x)     == reg[x].s                       \* value
Rd(x)    == reg[x].lz = 0                  \* may be read
Wr(x)    == reg[x].lz = 0 /\ ~reg[x].ro    \* may be modified
Set(d, s) == [reg[d] EXCEPT !.s = s]       \* register d modified in place

Distinct(d, b, op) == d # b \/ op \in AliasOps
Closed(p, q, k) == k = 0 \/ p < q          \* closed-range overloads cannot express an empty range

UnionOf(l) == UNION { V(l[i]) : i \in DOMAIN l }
RECURSIVE XorOf(_, _)
XorOf(l, n) == IF n = 0 THEN {} ELSE Xor(XorOf(l, n - 1), V(l[n]))

(***************************************************************************)
(* Do: the effect and the answer of call op.                               *)
(*  d destination, a b operands, p q boundary points, k variant, m a set of*)
(*  atoms, l a list of registers.                                          *)
(***************************************************************************)
Do(op, d, a, b, p, q, k, m, l) ==
  CASE
  \* -- algebra producing a new bitmap that replaces register d
     op = "and"    -> If(Rd(a) /\ Rd(b), Put(d, Bm(V(a) \cap V(b)), NoRet))
  [] op = "or"     -> If(Rd(a) /\ Rd(b), Put(d, Bm(V(a) \cup V(b)), NoRet))
  [] op = "xor"    -> If(Rd(a) /\ Rd(b), Put(d, Bm(Xor(V(a), V(b))), NoRet))
  [] op = "andnot" -> If(Rd(a) /\ Rd(b), Put(d, Bm(V(a) \ V(b)), NoRet))
  [] op = "flip"   -> If(Rd(a) /\ Closed(p, q, k), Put(d, Bm(Toggle(V(a), p, q)), NoRet))
  \* -- in place
  [] op = "iand"    -> If(Wr(d) /\ Rd(b) /\ Distinct(d, b, op), Put(d, Set(d, V(d) \cap V(b)), NoRet))
  [] op = "ior"     -> If(Wr(d) /\ Rd(b) /\ Distinct(d, b, op), Put(d, Set(d, V(d) \cup V(b)), NoRet))
  [] op = "ixor"    -> If(Wr(d) /\ Rd(b) /\ Distinct(d, b, op), Put(d, Set(d, Xor(V(d), V(b))), NoRet))
  [] op = "iandnot" -> If(Wr(d) /\ Rd(b) /\ Distinct(d, b, op), Put(d, Set(d, V(d) \ V(b)), NoRet))
  [] op = "iflip"   -> If(Wr(d) /\ Closed(p, q, k), Put(d, Set(d, Toggle(V(d), p, q)), NoRet))
  \* -- over a list of operands
  [] op = "orm"    -> If(\A i \in DOMAIN l : Rd(l[i]), Put(d, Bm(UnionOf(l)), NoRet))
  [] op = "orheap" -> If(\A i \in DOMAIN l : Rd(l[i]), Put(d, Bm(UnionOf(l)), NoRet))
  [] op = "xorm"   -> If(\A i \in DOMAIN l : Rd(l[i]), Put(d, Bm(XorOf(l, Len(l))), NoRet))
  \* -- lazy computations: only lazy steps of the same kind, then a repair
  [] op = "lor"    -> If(Rd(a) /\ Rd(b), Put(d, [Bm(V(a) \cup V(b)) EXCEPT !.lz = 1], NoRet))
  [] op = "lior"   -> If(reg[d].lz # 2 /\ ~reg[d].ro /\ Rd(b) /\ d # b,
                         Put(d, [Set(d, V(d) \cup V(b)) EXCEPT !.lz = 1], NoRet))
  [] op = "lxor"   -> If(Rd(a) /\ Rd(b), Put(d, [Bm(Xor(V(a), V(b))) EXCEPT !.lz = 2], NoRet))
  [] op = "lixor"  -> If(reg[d].lz # 1 /\ ~reg[d].ro /\ Rd(b) /\ d # b,
                         Put(d, [Set(d, Xor(V(d), V(b))) EXCEPT !.lz = 2], NoRet))
  \* the same, repaired at once (one step of the exhaustive configurations)
  [] op \in {"lorR", "liorR"} -> If(Rd(a) /\ Rd(b) /\ Wr(d) /\ d # b,
                         Put(d, IF op = "lorR" THEN Bm(V(a) \cup V(b)) ELSE Set(d, V(d) \cup V(b)), NoRet))
  [] op \in {"lxorR", "lixorR"} -> If(Rd(a) /\ Rd(b) /\ Wr(d) /\ d # b,
                         Put(d, IF op = "lxorR" THEN Bm(Xor(V(a), V(b))) ELSE Set(d, Xor(V(d), V(b))), NoRet))
  [] op = "repair" -> If(~reg[d].ro, Put(d, [reg[d] EXCEPT !.lz = 0], NoRet))
  \* -- comparisons and counts
  [] op = "eq"    -> If(Rd(a) /\ Rd(b), Same(Bool(V(a) = V(b))))
  [] op = "sub"   -> If(Rd(a) /\ Rd(b), Same(Bool(V(a) \subseteq V(b))))
  [] op = "ssub"  -> If(Rd(a) /\ Rd(b), Same(Bool(V(a) \subseteq V(b) /\ V(a) # V(b))))
  [] op = "isect" -> If(Rd(a) /\ Rd(b), Same(Bool(V(a) \cap V(b) # {})))
  [] op = "cand"  -> If(Rd(a) /\ Rd(b), Same(Card(V(a) \cap V(b))))
  [] op = "cor"   -> If(Rd(a) /\ Rd(b), Same(Card(V(a) \cup V(b))))
  [] op = "cxor"  -> If(Rd(a) /\ Rd(b), Same(Card(Xor(V(a), V(b)))))
  [] op = "candnot" -> If(Rd(a) /\ Rd(b), Same(Card(V(a) \ V(b))))
  [] op = "jac"   -> If(Rd(a) /\ Rd(b) /\ (V(a) \cup V(b)) # {}, Same(Ratio(V(a) \cap V(b), V(a) \cup V(b))))
  \* -- updates; the k-th way of adding/removing all values of the atoms m.
  \*    The answer is how many values were new / present (reported by the checked variants).
  [] op = "addA"  -> If(Wr(d), Put(d, Set(d, V(d) \cup m), Card(m \ V(d))))
  [] op = "remA"  -> If(Wr(d), Put(d, Set(d, V(d) \ m), Card(m \cap V(d))))
  [] op = "addR"  -> If(Wr(d) /\ Closed(p, q, k), Put(d, Set(d, V(d) \cup Rng(p, q)), NoRet))
  [] op = "remR"  -> If(Wr(d) /\ Closed(p, q, k), Put(d, Set(d, V(d) \ Rng(p, q)), NoRet))
  [] op = "clear" -> If(Wr(d), Put(d, Set(d, {}), NoRet))
  [] op = "new"   -> Put(d, Empty, NoRet)
  [] op = "ofA"   -> Put(d, Bm(m), NoRet)
  [] op = "build" -> Put(d, Bm(m), NoRet)             \* like ofA, by any route (ranges, adds, complements)
  [] op = "fromR" -> If(p < q, Put(d, Bm(Rng(p, q)), NoRet))
  \* values first(p)+c, first(p)+c+C, ... below boundary q: colour c of the segments
  \* (only meaningful, and only replayed, in concretizations whose colours are strides)
  [] op = "fromS" -> If(p < q /\ k < C, Put(d, Bm({x \in Rng(p, q) : x % C = k}), NoRet))
  [] op = "copy"  -> If(Rd(a), Put(d, Bm(V(a)), NoRet))
  [] op = "over"  -> If(Wr(d) /\ Rd(a) /\ Distinct(d, a, op), Put(d, Set(d, V(a)), NoRet))
  [] op = "assign" -> If(Wr(d) /\ Rd(a), Put(d, Set(d, V(a)), NoRet))
  [] op = "move"  -> If(Wr(d) /\ Wr(a) /\ d # a,
                        Yes([reg EXCEPT ![d] = reg[a], ![a] = Empty], NoRet))
  [] op = "swap"  -> If(Wr(d) /\ Wr(a),
                        Yes([reg EXCEPT ![d] = reg[a], ![a] = reg[d]], NoRet))
  \* -- queries
  [] op = "has"   -> If(Rd(a), Same(<<"member", <<Mask(m), Mask(V(a))>> >>))
  [] op = "hasR"  -> If(Rd(a) /\ Closed(p, q, k), Same(Bool(Rng(p, q) \subseteq V(a))))
  [] op = "cardR" -> If(Rd(a) /\ Closed(p, q, k), Same(Card(V(a) \cap Rng(p, q))))
  [] op = "isectR" -> If(Rd(a) /\ Closed(p, q, k), Same(Bool(V(a) \cap Rng(p, q) # {})))
  [] op = "rank"  -> If(Rd(a), Same(Card(Below(V(a), p))))
  [] op = "rankM" -> If(Rd(a), Same(Cards([i \in 1..(S+1) |-> Mask(Below(V(a), i - 1))])))
  [] op = "sel"   -> If(Rd(a), Same(MinOf(FirstFrom(V(a), p))))
  [] op = "selp"  -> If(Rd(a) /\ Below(V(a), p) # {}, Same(MaxOf(LastBelow(V(a), p))))
  [] op = "idx"   -> If(Rd(a) /\ m # {},
                        LET x == Min(m) IN
                        Same(IF x \in V(a) THEN Pos(x, V(a), k % 2) ELSE <<"absent", <<Pow2[x], k % 2>> >>))
  [] op = "min"   -> If(Rd(a), Same(MinOf(FirstFrom(V(a), 0))))
  [] op = "max"   -> If(Rd(a), Same(MaxOf(LastBelow(V(a), S))))
  [] op = "empty" -> If(Rd(a), Same(Bool(V(a) = {})))
  [] op = "card"  -> If(Rd(a), Same(Card(V(a))))
  [] op = "page"  -> If(Rd(a), Same(<<"page", <<Mask(Below(V(a), p)), Mask(V(a) \cap Rng(p, q))>> >>))
  [] op = "arr"   -> If(Rd(a), Same(List(V(a))))
  [] op = "iter"  -> If(Rd(a), Same(<<"iter", <<Mask(Below(V(a), p)), Mask(V(a))>> >>))
  \* forward from the first value at/above p, backward from the last one below it
  [] op = "walk"  -> If(Rd(a), Same(<<"walk", <<Mask(From(V(a), p)), Mask(Below(V(a), p)), Mask(V(a) \cap Rng(p, q))>> >>))
  [] op = "stat"  -> If(Rd(a), Same(<<"stat", <<Mask(V(a))>> >>))
  \* -- representation changes: the value stays
  [] op = "opt"    -> If(Wr(d), Same(NoRet))
  [] op = "unopt"  -> If(Wr(d), Same(NoRet))
  [] op = "shrink" -> If(Wr(d), Same(NoRet))
  [] op = "cow"    -> If(Wr(d), Same(NoRet))
  \* -- serialization: write register a in format k and load it into register d
  [] op = "ser"    -> If(Rd(a), Put(d, Bm(V(a)), NoRet))
  [] op = "view"   -> If(Rd(a), Put(d, [Bm(V(a)) EXCEPT !.ro = TRUE], NoRet))
  \* -- shifted by an offset such that exactly the values at/above (k even) or below (k odd) boundary p
  \*    stay in the universe, then shifted back (see Offset.tla)
  [] op = "off"    -> If(Rd(a), Put(d, Bm(IF k % 2 = 0 THEN From(V(a), p) ELSE Below(V(a), p)), NoRet))
  \* -- conversions to another bitmap type and back
  [] op = "conv"   -> If(Rd(a), Put(d, Bm(V(a)), NoRet))

\* ---- behaviours ----------------------------------------------------------
Init == /\ reg = [r \in Reg |-> Empty]
        /\ step = 0
        /\ ev = <<"init", NoRet>>

Obs(r) == [x \in Reg |-> <<Mask(r[x].s), r[x].lz, IF r[x].ro THEN 1 ELSE 0>>]

Enc(l) == l  \* operand list as printed

Take(op, d, a, b, p, q, k, m, l) ==
  LET o == Do(op, d, a, b, p, q, k, m, l) IN
  /\ step' = step + 1
  /\ reg' = o.reg
  /\ ev' = IF o.ok THEN <<op, o.ret>> ELSE <<"nop", NoRet>>
  /\ PrintT(ToString(<<"EV", step + 1, IF o.ok THEN op ELSE "nop", d, a, b, p, q, k, Mask(m), "L", Len(l), l,
                       "R", o.ret, "S", [x \in 1..N |-> Obs(o.reg)[x-1]]>>))

\* a random set of atoms whose density varies from draw to draw
RandSet(x) ==
  LET w == RandomElement(0..Dens) IN
  CASE w = 0 -> {}
    [] w = 1 -> {y \in Atom : RandomElement(1..4) > 1}
    [] w = 2 -> {y \in Atom : RandomElement(1..2) = 1}
    [] w = 3 -> {y \in Atom : RandomElement(1..5) = 1}
    [] w = 4 -> {RandomElement(Atom)}
    [] w = 5 -> Rng(RandomElement(Point), RandomElement(Point))
    [] w = 6 -> {y \in Atom : y % C = RandomElement(0..C-1)}
    [] OTHER -> Rng(RandomElement(Point), RandomElement(Point)) \cup {RandomElement(Atom)}

RandList(n) == [i \in 1..n |-> RandomElement(Reg)]

RandNext ==
  /\ step < Depth
  /\ \E op \in {IF step < N THEN (IF step % 2 = 0 THEN "build" ELSE "ofA") ELSE OpSeq[RandomElement(1..Len(OpSeq))]},
        d \in {IF step < N THEN step ELSE RandomElement(Reg)},
        a \in {RandomElement(Reg)},
        b \in {RandomElement(Reg)},
        p \in {RandomElement(Point)},
        q \in {RandomElement(Point)},
        k \in {RandomElement(0..(Ways-1))},
        m \in {RandSet(0)},
        n \in {RandomElement(0..5)} :
     \E l \in {RandList(n)} : Take(op, d, a, b, p, q, k, m, l)

\* Exhaustive: from every pair of values of registers 0 and 1, every call with
\* every argument, once.  Register 2 receives new bitmaps.
PairInit == /\ reg \in { [r \in Reg |-> IF r = 0 THEN Bm(A) ELSE IF r = 1 THEN Bm(B) ELSE Empty]
                         : A \in SUBSET Atom, B \in SUBSET Atom }
            /\ step = 0
            /\ ev = <<"init", NoRet>>

Unary == {"has", "hasR", "cardR", "isectR", "rank", "rankM", "sel", "selp", "idx", "min", "max", "empty", "card",
          "page", "arr", "iter", "walk", "stat", "flip", "copy", "ser", "view", "conv", "off"}
OneReg == {"iflip", "addA", "remA", "addR", "remR", "clear", "opt", "unopt", "shrink", "fromR", "fromS",
           "ofA", "build", "new", "cow"}
UsesPQ == {"flip", "iflip", "addR", "remR", "hasR", "cardR", "isectR", "page", "walk", "fromR", "fromS"}
UsesP  == {"rank", "sel", "selp", "iter", "off"}
UsesM  == {"addA", "remA", "has", "ofA", "build"}
UsesA  == {"idx"}
UsesK  == {"addA", "remA", "has", "idx", "fromS", "ser", "view", "off"}                              \* Ways variants
UsesK2 == {"flip", "iflip", "addR", "remR", "hasR", "cardR", "isectR", "lorR", "liorR", "cow"}   \* two variants
NotInPairs == {"lor", "lior", "lxor", "lixor", "repair"}
Lists  == {"orm", "orheap", "xorm"}
IntoD0 == {"iand", "ior", "ixor", "iandnot", "liorR", "lixorR", "over", "assign"}
Fresh  == {"new", "ofA", "build", "fromR", "fromS"}   \* do not depend on the pool

PairNext ==
  /\ step = 0
  /\ \E op \in OpSet \ NotInPairs :
     \E d \in (IF op \in OneReg \cup IntoD0 THEN {0} ELSE {2}),
        a \in {0},
        b \in (IF op \in Unary \cup OneReg THEN {0} ELSE IF op \in AliasOps THEN {0, 1} ELSE {1}),
        k \in (IF op \in UsesK THEN 0..(Ways-1) ELSE IF op \in UsesK2 THEN 0..1 ELSE {0}),
        p \in (IF op \in UsesPQ \cup UsesP THEN Point ELSE {0}),
        q \in (IF op \in UsesPQ THEN Point ELSE {0}),
        m \in (IF op \in UsesM THEN SUBSET Atom ELSE IF op \in UsesA THEN {{x} : x \in Atom} ELSE {{}}),
        l \in (IF op \in Lists THEN {<<>>, <<0>>, <<0, 1>>, <<1, 0>>, <<0, 1, 0>>, <<0, 0>>} ELSE {<<>>}) :
        /\ (op \in Fresh => reg[0].s = {})
        /\ (op \in Unary \cup OneReg => reg[1].s = {})   \* unary calls: once per value of register 0
        /\ Do(op, d, a, b, p, q, k, m, l).ok
        /\ PrintT(ToString(<<"PRE", [x \in 1..N |-> Obs(reg)[x-1]]>>))
        /\ Take(op, d, a, b, p, q, k, m, l)

\* ---- what the specification itself must satisfy --------------------------
TypeOK == /\ \A r \in Reg : reg[r].s \subseteq Atom /\ reg[r].ro \in BOOLEAN /\ reg[r].lz \in 0..2
          /\ step \in 0..Depth

\* algebraic laws relating the operations (checked in every reachable state)
Laws == \A x \in Reg, y \in Reg :
   LET A == V(x)  B == V(y) IN
   /\ Xor(A, B) = (A \cup B) \ (A \cap B)
   /\ Cardinality(A \cup B) + Cardinality(A \cap B) = Cardinality(A) + Cardinality(B)
   /\ Cardinality(Xor(A, B)) = Cardinality(A \ B) + Cardinality(B \ A)
   /\ (A \subseteq B) <=> (A \ B = {})
   /\ \A p \in Point : /\ Below(A, p) \cup From(A, p) = A
                       /\ (Below(A, p) = {}) <=> (LastBelow(A, p) = {})
                       /\ Toggle(Toggle(A, 0, p), p, S) = Atom \ A

\* a call never changes a register that is not its destination: every step changes at most
\* the destinations (move and swap have two)
Frame == [][ Cardinality({r \in Reg : reg'[r] # reg[r]}) <= (IF ev'[1] \in {"move", "swap"} THEN 2 ELSE 1) ]_vars

RandSpec == Init /\ [][RandNext]_vars
PairSpec == PairInit /\ [][PairNext]_vars
=============================================================================
