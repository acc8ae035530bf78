------------------------------- MODULE Dense -------------------------------
(***************************************************************************)
(* The dense bitset (bitset_t): a set of indices with an explicit size.    *)
(*                                                                         *)
(* A bitset is a record [b, n]: the set b of indices whose bit is set and  *)
(* the number n of 64-bit words it can address; b is a subset of           *)
(* 0..64n-1.  Unlike the bitmaps of SetMachine, sizes and positions inside *)
(* words are observable here (size queries, fill, shifts by arbitrary      *)
(* amounts), so this specification works on the integers themselves.       *)
(*                                                                         *)
(* EnumSpec: every pair of bitsets over the indices in Pos and sizes up to *)
(* MaxW, and every call on them with every argument in Args, once.         *)
(* RandSpec: simulated histories over larger random bitsets.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS Pos, MaxW, Args, Depth, BigW

N == 3
Reg == 0..(N-1)
W == 64

VARIABLES reg, step, lastd
vars == <<reg, step, lastd>>

Bs(b, n) == [b |-> b, n |-> n]
None == Bs({}, 0)
Words(x) == (x + W - 1) \div W
MaxOf(s) == IF s = {} THEN 0 ELSE Max(s)
Need(s) == IF s = {} THEN 0 ELSE Max(s) \div W + 1
Fit(b, n) == { x \in b : x < W * n }
Larger(x, y) == IF x > y THEN x ELSE y

\* the first k elements of s at or above p
FirstK(s, p, k) ==
   LET f == { x \in s : x >= p } IN
   IF Cardinality(f) <= k THEN f
   ELSE LET q == SetToSortSeq(f, LAMBDA x, y : x < y) IN { q[i] : i \in 1..k }

NoRet      == <<"none", <<>> >>
Num(x)     == <<"num", <<x>> >>
Bool(c)    == <<"bool", <<IF c THEN 1 ELSE 0>> >>
Nothing    == <<"num", <<-1>> >>                  \* stands for SIZE_MAX / "no more"
\* a set of indices as its maximal intervals: first elements, then last elements
Runs(s) == LET lo == { x \in s : (x - 1) \notin s }
               hi == { x \in s : (x + 1) \notin s }
           IN << "runs", <<Cardinality(lo), lo, hi>> >>

Out(d, r, ret) == [ok |-> TRUE, d |-> d, r |-> r, ret |-> ret]
Ask(d, ret)    == [ok |-> TRUE, d |-> d, r |-> reg[d], ret |-> ret]
No             == [ok |-> FALSE, d |-> 0, r |-> None, ret |-> NoRet]

Do(op, d, e, x, y) ==
  LET A == reg[d]  B == reg[e] IN
  CASE op = "new"     -> Out(d, None, NoRet)
    [] op = "cap"     -> Out(d, Bs({}, Words(x)), NoRet)                     \* x bits
    [] op = "copy"    -> Out(d, B, NoRet)
    [] op = "set"     -> Out(d, Bs(A.b \cup {x}, Larger(A.n, x \div W + 1)), NoRet)
    [] op = "put"     -> Out(d, Bs(IF y % 2 = 1 THEN A.b \cup {x} ELSE A.b \ {x}, Larger(A.n, x \div W + 1)), NoRet)
    [] op = "clear"   -> Out(d, Bs({}, A.n), NoRet)
    [] op = "fill"    -> Out(d, Bs(0..(W * A.n - 1), A.n), NoRet)
    \* resizing without padding leaves new words unspecified: only asked for when it does not grow
    [] op = "resize"  -> LET k == x \div W IN Out(d, Bs(Fit(A.b, k), k), Bool(TRUE))
    [] op = "grow"    -> LET k == x \div W IN IF k < A.n THEN Ask(d, Bool(FALSE)) ELSE Out(d, Bs(A.b, k), Bool(TRUE))
    [] op = "trim"    -> Out(d, Bs(A.b, Need(A.b)), Bool(TRUE))
    [] op = "shl"     -> Out(d, Bs({ i + x : i \in A.b }, A.n + Words(x)), NoRet)
    [] op = "shr"     -> LET k == x \div W IN
                         Out(d, Bs({ i - x : i \in {j \in A.b : j >= x} }, IF k >= A.n THEN 0 ELSE A.n - k), NoRet)
    [] op = "size"    -> Ask(d, Num(A.n))
    [] op = "get"     -> Ask(d, Bool(x \in A.b))
    [] op = "count"   -> Ask(d, Num(Cardinality(A.b)))
    [] op = "empty"   -> Ask(d, Bool(A.b = {}))
    [] op = "min"     -> Ask(d, IF A.b = {} THEN Nothing ELSE Num(Min(A.b)))
    [] op = "max"     -> Ask(d, Num(MaxOf(A.b)))
    [] op = "next"    -> Ask(d, LET f == {i \in A.b : i >= x} IN IF f = {} THEN Nothing ELSE Num(Min(f)))
    [] op = "nexts"   -> Ask(d, Runs(FirstK(A.b, x, y)))
    [] op = "each"    -> Ask(d, Runs(FirstK(A.b, 0, y)))
    \* two different bitsets
    [] d = e          -> No
    [] op = "ior"     -> Out(d, Bs(A.b \cup B.b, Larger(A.n, B.n)), Bool(TRUE))
    [] op = "iand"    -> Out(d, Bs(A.b \cap B.b, A.n), NoRet)
    [] op = "iandnot" -> Out(d, Bs(A.b \ B.b, A.n), NoRet)
    [] op = "ixor"    -> Out(d, Bs((A.b \ B.b) \cup (B.b \ A.b), Larger(A.n, B.n)), Bool(TRUE))
    [] op = "cor"     -> Ask(d, Num(Cardinality(A.b \cup B.b)))
    [] op = "cand"    -> Ask(d, Num(Cardinality(A.b \cap B.b)))
    [] op = "candnot" -> Ask(d, Num(Cardinality(A.b \ B.b)))
    [] op = "cxor"    -> Ask(d, Num(Cardinality(A.b \ B.b) + Cardinality(B.b \ A.b)))
    [] op = "disj"    -> Ask(d, Bool(A.b \cap B.b = {}))
    [] op = "isect"   -> Ask(d, Bool(A.b \cap B.b # {}))
    [] op = "all"     -> Ask(d, Bool(B.b \subseteq A.b))
    \* a compressed bitmap with exactly the indices of e, converted into the (cleared) bitset d;
    \* the size afterwards is the smallest that fits, at least one word
    [] op = "conv"    -> Out(d, Bs(B.b, Larger(1, Need(B.b))), Bool(TRUE))

Unary  == {"new", "clear", "fill", "trim", "size", "count", "empty", "min", "max"}
OneArg == {"cap", "set", "resize", "grow", "shl", "shr", "get", "next"}
TwoArg == {"put", "nexts", "each"}
Binary == {"copy", "ior", "iand", "iandnot", "ixor", "cor", "cand", "candnot", "cxor", "disj", "isect", "all", "conv"}
Mutators == <<"set", "put", "put", "fill", "clear", "resize", "grow", "trim", "shl", "shr", "ior", "iand", "iandnot", "ixor", "copy", "conv",
              "new", "cap", "shl", "shr", "ior", "ixor", "rand", "rand", "rand", "rand">>
Queries  == <<"size", "get", "count", "empty", "min", "max", "next", "nexts", "each", "cor", "cand", "candnot", "cxor", "disj", "isect", "all">>

Show(op, d, e, x, y, o) ==
  PrintT(ToString(<<"DB", step + 1, op, d, e, x, y, "R", o.ret, "S", o.r.n, Runs(o.r.b)>>))

Take(op, d, e, x, y, o) ==
  /\ o.ok
  /\ reg' = [reg EXCEPT ![o.d] = o.r]
  /\ lastd' = o.d
  /\ step' = step + 1
  /\ Show(op, d, e, x, y, o)

\* ---- exhaustive
Sizes(b) == Need(b)..MaxW
All == { Bs(b, n) : b \in SUBSET Pos, n \in 0..MaxW }
Valid == { v \in All : v.n >= Need(v.b) }
EnumInit == /\ reg \in { [r \in Reg |-> IF r = 0 THEN v ELSE IF r = 1 THEN w ELSE None] : v \in Valid, w \in Valid }
            /\ step = 0 /\ lastd = 0
EnumNext ==
  /\ step = 0
  /\ \E op \in Unary \cup OneArg \cup TwoArg \cup Binary :
     /\ (op \notin Binary => reg[1] = None)
     /\ \E x \in (IF op \in OneArg \cup TwoArg THEN Args ELSE {0}), y \in (IF op \in TwoArg THEN 0..3 ELSE {0}) :
        /\ PrintT(ToString(<<"DP", reg[0].n, Runs(reg[0].b), reg[1].n, Runs(reg[1].b)>>))
        /\ Take(op, 0, IF op \in Binary THEN 1 ELSE 0, x, y, Do(op, 0, 1, x, y))
EnumSpec == EnumInit /\ [][EnumNext]_vars

\* ---- histories
Init == reg = [r \in Reg |-> None] /\ step = 0 /\ lastd = 0

RndBit(k) == RandomElement(0..(W * k - 1))
Edge(k) == W * RandomElement(0..(k - 1)) + RandomElement({0, 1, 62, 63})
RandBits(k) ==   \* a random set of indices below 64 k, k > 0
  LET s == RandomElement(1..8) IN
  CASE s = 1 -> {RndBit(k)}
    [] s = 2 -> {Edge(k), Edge(k), RndBit(k)}
    [] s = 3 -> LET a == RndBit(k) c == RndBit(k) IN {i \in 0..(W * k - 1) : a <= i /\ i <= c}
    [] s = 4 -> LET m == RandomElement(1..90) q == RandomElement(0..(m-1)) IN {i \in 0..(W * k - 1) : i % m = q}
    [] s = 5 -> LET ws == {i \in 0..(k - 1) : RandomElement({TRUE, FALSE})} IN {i \in 0..(W * k - 1) : (i \div W) \in ws}
    [] s = 6 -> {W * i + RandomElement(0..63) : i \in 0..(k - 1)}
    [] s = 7 -> LET ws == {RandomElement(0..(k - 1)), k - 1} IN {W * i + RandomElement({0, 63, 17}) : i \in ws}
    [] OTHER -> LET m == RandomElement(2..9) IN {i \in 0..(W * k - 1) : RandomElement(1..m) = 1}

RandArg == LET k == RandomElement(1..BigW) IN
           IF RandomElement(1..3) = 1 THEN Edge(k) ELSE IF RandomElement(1..2) = 1 THEN RndBit(k) ELSE RandomElement(0..200)

RandNext ==
  /\ step < Depth
  /\ \E op \in {IF step < N THEN "rand" ELSE IF RandomElement(1..2) = 1 THEN Mutators[RandomElement(1..Len(Mutators))]
                ELSE Queries[RandomElement(1..Len(Queries))]},
        d \in {IF step < N THEN step ELSE RandomElement(Reg)},
        e \in {RandomElement(Reg)}, k \in {RandomElement(1..BigW)},
        x \in {RandArg}, y \in {RandomElement({0, 1, 2, 3, 64, 100, 1000})} :
     IF op = "rand"
     THEN \E b \in {RandBits(k)}, extra \in {RandomElement({0, 0, 1, 3, 9})} :
          LET r == Bs(b, Need(b) + extra) IN Take(op, d, d, 0, 0, Out(d, r, NoRet))
     ELSE LET o == Do(op, d, e, x, y) IN
          IF o.ok /\ o.r.n <= 3 * BigW THEN Take(op, d, e, x, y, o)
          ELSE Take("size", d, e, 0, 0, Do("size", d, e, 0, 0))
RandSpec == Init /\ [][RandNext]_vars

\* ---- self checks
TypeOK == \A r \in Reg : /\ reg[r].n \in Nat
                         /\ reg[r].b \subseteq 0..(W * reg[r].n - 1)
Laws == LET A == reg[0].b B == reg[1].b IN
        /\ Cardinality(A \cup B) = Cardinality(A) + Cardinality(B) - Cardinality(A \cap B)
        /\ \A x \in Args : { i - x : i \in {j \in { k + x : k \in A } : j >= x} } = A
Frame == [][ \A r \in Reg : reg'[r] # reg[r] => r = lastd' ]_vars
=============================================================================
