-------------------------------- MODULE Race --------------------------------
(***************************************************************************)
(* Is a recorded execution of several threads free of data races and of    *)
(* uses of released memory?  The happens-before order of the C11 memory    *)
(* model for what the library uses: relaxed, release and acquire atomic    *)
(* operations, fences, and release sequences.  TLC follows the log of the  *)
(* real code's accesses entry by entry and is stuck at the first one that  *)
(* is not allowed.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS File,       \* the log: <<what, thread, block, place, order>>
          MaxT
Log == ndJsonDeserialize(File)
Th == 0..(MaxT - 1)
Zero == [t \in Th |-> 0]
Join(a, b) == [t \in Th |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]

VARIABLES clk, rel, pend,    \* per thread: clock; at the last release fence; read by relaxed loads
          dead,              \* released blocks
          rd, wr, at,        \* per place: clocks of the plain reads, plain writes, and atomic operations of each thread
          atw,               \* ... of the atomic writes
          pub,               \* per atomic: what its release sequence publishes
          i
vars == <<clk, rel, pend, dead, rd, wr, at, atw, pub, i>>
Fresh == [clk |-> [t \in Th |-> [u \in Th |-> IF u = t THEN 1 ELSE 0]], z |-> [t \in Th |-> Zero]]
Init == /\ clk = Fresh.clk /\ rel = Fresh.z /\ pend = Fresh.z
        /\ dead = {} /\ rd = <<>> /\ wr = <<>> /\ at = <<>> /\ atw = <<>> /\ pub = <<>> /\ i = 0

Of(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Zero
Set(f, x, t) == (x :> [Of(f, x) EXCEPT ![t] = clk[t][t]]) @@ f
\* all of them happened before what thread t does now
Before(c, t) == \A u \in Th : u = t \/ c[u] <= clk[t][u]
Acq(o) == o \in {"acquire", "acqrel"}
Rel(o) == o \in {"release", "acqrel"}
Tick(t) == [clk EXCEPT ![t][t] = @ + 1]

Allowed(e) ==
  LET t == e[2]  b == e[3]  x == <<e[3], e[4]>>  o == e[5] IN
  CASE e[1] = "phase" ->     \* the threads start, knowing everything before; what was released before stays so, in the same history
         /\ clk' = Fresh.clk /\ rel' = Fresh.z /\ pend' = Fresh.z
         /\ rd' = <<>> /\ wr' = <<>> /\ at' = <<>> /\ atw' = <<>> /\ pub' = <<>> /\ dead' = IF o = "new" THEN {} ELSE dead
    [] e[1] = "get" -> dead' = dead \ {b} /\ UNCHANGED <<clk, rel, pend, rd, wr, at, atw, pub>>
    [] e[1] = "ret" -> \* (the accesses it conflicts with are in the log as writes)
         b \notin dead /\ dead' = dead \cup {b} /\ UNCHANGED <<clk, rel, pend, rd, wr, at, atw, pub>>
    [] e[1] = "rd" ->
         /\ b \notin dead /\ Before(Of(wr, x), t) /\ Before(Of(atw, x), t)
         /\ rd' = Set(rd, x, t) /\ UNCHANGED <<clk, rel, pend, dead, wr, at, atw, pub>>
    [] e[1] = "wr" ->
         /\ b \notin dead /\ Before(Of(wr, x), t) /\ Before(Of(rd, x), t) /\ Before(Of(at, x), t)
         /\ wr' = Set(wr, x, t) /\ UNCHANGED <<clk, rel, pend, dead, rd, at, atw, pub>>
    [] e[1] = "load" ->
         /\ b \notin dead /\ Before(Of(wr, x), t)
         /\ at' = Set(at, x, t)
         /\ pend' = [pend EXCEPT ![t] = Join(@, Of(pub, x))]
         /\ clk' = IF Acq(o) THEN [clk EXCEPT ![t] = Join(@, Of(pub, x))] ELSE clk
         /\ UNCHANGED <<rel, dead, rd, wr, atw, pub>>
    [] e[1] \in {"rmw", "store"} ->
         LET seen == IF e[1] = "rmw" THEN Of(pub, x) ELSE Zero
             mine == IF e[1] = "rmw" /\ Acq(o) THEN Join(clk[t], seen) ELSE clk[t] IN
         /\ b \notin dead /\ Before(Of(wr, x), t) /\ Before(Of(rd, x), t)
         /\ at' = Set(at, x, t) /\ atw' = Set(atw, x, t)
         /\ pend' = [pend EXCEPT ![t] = Join(@, seen)]
         /\ pub' = (x :> Join(seen, IF Rel(o) THEN mine ELSE rel[t])) @@ pub
         /\ clk' = [clk EXCEPT ![t] = [mine EXCEPT ![t] = @ + 1]]
         /\ UNCHANGED <<rel, dead, rd, wr>>
    [] e[1] = "fence" ->
         LET mine == IF Acq(o) THEN Join(clk[t], pend[t]) ELSE clk[t] IN
         /\ rel' = IF Rel(o) THEN [rel EXCEPT ![t] = mine] ELSE rel
         /\ clk' = [clk EXCEPT ![t] = IF Rel(o) THEN [mine EXCEPT ![t] = @ + 1] ELSE mine]
         /\ UNCHANGED <<pend, dead, rd, wr, at, atw, pub>>
Next == \/ i < Len(Log) /\ Allowed(Log[i + 1]) /\ i' = i + 1
        \/ i = Len(Log) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
