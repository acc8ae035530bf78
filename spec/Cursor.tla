------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* Iterators over a bitmap that does not change meanwhile.                 *)
(*                                                                         *)
(* A bitmap of n values is, for its iterators, the sequence v[1..n] in     *)
(* increasing order.  An iterator stands on a position 0..n+1: 0 is before *)
(* the first value, n+1 behind the last one, and only positions 1..n have a*)
(* value.  Several iterators of one bitmap live side by side and do not    *)
(* influence each other.                                                   *)
(*                                                                         *)
(* Fwd: seeks are only defined from the current position onwards (64-bit C *)
(* iterators).  Cpp: there is no position before the first value and no    *)
(* block read (C++ classes).                                               *)
(*                                                                         *)
(* TLC enumerates every history up to Depth for small n (EnumSpec) and     *)
(* simulates long ones for large n (RandSpec); each is replayed on bitmaps *)
(* of exactly n values in many layouts.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Sizes,  \* sequence of possible numbers of values
          K,      \* iterators
          Depth,  \* calls per history
          Fwd, Cpp

VARIABLES n, pos, hist

vars == <<n, pos, hist>>

It == 1..K
Has(p) == 1 <= p /\ p <= n
Min(a, b) == IF a < b THEN a ELSE b

\* calls: [op, c iterator, x argument, y argument] ; outcome: new position and number of values delivered
Out(ok, p, cnt) == [ok |-> ok, p |-> p, cnt |-> cnt]
Start == IF n = 0 THEN 1 ELSE 1            \* init: first value (behind the end of an empty bitmap)
Last  == n                                 \* init_last: last value (before the start of an empty one)

Do(op, c, x, y) ==
  LET p == pos[c] IN
  CASE op = "first" -> Out(TRUE, Start, 0)
    [] op = "last"  -> Out(~Cpp \/ n > 0, Last, 0)
    [] op = "end"   -> Out(Cpp, n + 1, 0)
    [] op = "adv"   -> Out(~Cpp \/ p <= n, Min(p + 1, n + 1), 0)     \* behind the end it stays there (C)
    [] op = "prev"  -> Out(p >= (IF Cpp THEN 2 ELSE 0), IF p = 0 THEN 0 ELSE p - 1, 0)
    \* seek the first value >= t, where v[x-1] < t <= v[x] (y = 0: t = v[x] if there is one; y > 0: any such t)
    [] op = "seek"  -> Out(x \in 1..(n+1) /\ (Fwd => x >= p), x, 0)
    \* read up to x values
    [] op = "read"  -> Out(~Cpp, IF Has(p) THEN p + Min(x, n + 1 - p) ELSE p, IF Has(p) THEN Min(x, n + 1 - p) ELSE 0)
    \* iterator c becomes a copy of iterator x
    [] op = "copy"  -> Out(x \in It, pos[x], 0)
    \* compare iterators c and x (C++): -1, 0, 1
    [] op = "cmp"   -> Out(Cpp /\ x \in It, p, IF p < pos[x] THEN 0 ELSE IF p = pos[x] THEN 1 ELSE 2)
    [] OTHER -> Out(FALSE, p, 0)

Ops == {"first", "last", "end", "adv", "prev", "seek", "read", "copy", "cmp"}

Init == /\ n \in {Sizes[i] : i \in DOMAIN Sizes}
        /\ pos = [c \in It |-> 1]
        /\ hist = <<>>

Take(op, c, x, y) ==
  LET o == Do(op, c, x, y) IN
  /\ o.ok
  /\ pos' = [pos EXCEPT ![c] = o.p]
  /\ hist' = Append(hist, <<op, c, x, y, o.p, o.cnt>>)
  /\ n' = n
  /\ (Len(hist') = Depth => PrintT(ToString(<<"CU", n, hist'>>)))

EnumNext ==
  /\ Len(hist) < Depth
  /\ \E op \in Ops, c \in It :
       \E x \in (CASE op = "seek" -> 1..(n+1) [] op = "read" -> 0..(n+1) [] op \in {"copy", "cmp"} -> It \ {c} [] OTHER -> {0}),
          y \in (IF op = "seek" THEN 0..1 ELSE {0}) :
         Take(op, c, x, y)

\* seek targets near the current position, or anywhere
SeekTo(p) ==
  LET r == RandomElement(1..4) IN
  CASE r = 1 -> RandomElement(1..(n+1))
    [] r = 2 -> Min(n + 1, p + RandomElement(0..3))
    [] r = 3 -> Min(n + 1, p + RandomElement({64, 100, 1000, 4096, 65535, 65536}))
    [] OTHER -> IF p < n + 1 /\ p > 0 THEN RandomElement(p..(n+1)) ELSE n + 1

ReadLen(p) ==
  LET r == RandomElement(1..5) IN
  CASE r = 1 -> RandomElement(0..3)
    [] r = 2 -> RandomElement({63, 64, 65, 128, 4095, 4096, 65535, 65536, 70000})
    [] r = 3 -> RandomElement(0..(n+1))
    [] r = 4 -> IF Has(p) THEN n + 1 - p ELSE 1
    [] OTHER -> IF Has(p) THEN n - p ELSE 2

\* weights; a seek or a step is drawn more often than a restart
OpW == <<"adv", "adv", "adv", "adv", "prev", "prev", "prev", "seek", "seek", "seek", "seek", "read", "read", "read", "copy", "cmp", "cmp",
         "first", "last", "end">>

RandNext ==
  /\ Len(hist) < Depth
  /\ \E op \in {OpW[RandomElement(1..Len(OpW))]}, c \in {RandomElement(It)}, y \in {RandomElement(0..2)} :
       \E x \in {CASE op = "seek" -> SeekTo(pos[c]) [] op = "read" -> ReadLen(pos[c]) [] OTHER -> RandomElement(It)} :
         IF Do(op, c, x, y).ok THEN Take(op, c, x, y)
         ELSE Take("first", c, 0, 0)

TypeOK == \A c \in It : pos[c] \in 0..(n+1)
\* reads and steps never skip or repeat a value: a read delivers exactly the values between the two positions
Dense == [][ \A c \in It : Len(hist') > Len(hist) /\ hist'[Len(hist')][2] = c /\ hist'[Len(hist')][1] = "read"
                            => pos'[c] - pos[c] = hist'[Len(hist')][6] ]_vars
\* an iterator is moved only by calls on it
Alone == [][ \A c \in It : pos'[c] # pos[c] => hist'[Len(hist')][2] = c ]_vars

EnumSpec == Init /\ [][EnumNext]_vars
RandSpec == Init /\ [][RandNext]_vars
=============================================================================
