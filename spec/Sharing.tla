------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* Copy-on-write storage shared by several threads, down to the accesses to*)
(* the reference counter, with the happens-before order of the C11 memory  *)
(* model (relaxed, release and acquire operations and fences).             *)
(*                                                                         *)
(* A payload holds a value; a cell (reference counter and pointer) wraps a *)
(* payload that several handles share.  Each thread owns handles and       *)
(* copies, reads, writes and frees them; a write through a shared handle   *)
(* takes the payload when it is the only reference and clones it otherwise.*)
(* Checked in every interleaving: nothing dead is touched, every handle    *)
(* reads the value its own thread's operations define, the counter counts  *)
(* the handles, nothing is left at the end, and conflicting plain accesses *)
(* are ordered (no data race).                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T,         \* threads 1..T
          Ops,       \* operations each thread makes before freeing what it has left
          Extra,     \* 0, or 1: a further reference held by nobody running
          Release,   \* the decrement is a release operation
          Fence,     \* an acquire fence follows the last decrement
          Early,     \* FALSE: the reference is kept while the payload is cloned; TRUE: given up first (broken)
          Emit       \* print the schedules
Th == 1..T
Cells == 1..(T * Ops + 1)
Pays == 1..(2 * T * Ops + 1)
None == 0
Zero == [t \in Th |-> 0]
Join(a, b) == [t \in Th |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]

VARIABLES cell,     \* cell[c]: [live, cnt, pay, rel]   rel: what a decrement publishes
          pay,      \* pay[p]: [live, val, rd, wr]      rd, wr: clocks of the last read / write of each thread
          own,      \* own[t]: sequence of handles, <<"cell", c>> or <<"pay", p>>
          val,      \* val[t]: what the handles of t must hold
          pc, loc,  \* where each thread is in its operation
          left,     \* operations left
          clk,      \* vector clocks
          bad,      \* a violation, or "no"
          sched     \* the threads in the order of their counter accesses (for the replay; not part of the view)
vars == <<cell, pay, own, val, pc, loc, left, clk, bad, sched>>
view == <<cell, pay, own, val, pc, loc, left, clk, bad>>

Init ==
  /\ cell = [c \in Cells |-> [live |-> c = 1, cnt |-> IF c = 1 THEN T + Extra ELSE 0, pay |-> IF c = 1 THEN 1 ELSE 0, rel |-> Zero, plain |-> Zero]]
  /\ pay = [p \in Pays |-> [live |-> p = 1, val |-> 0, rd |-> Zero, wr |-> Zero]]
  /\ own = [t \in Th |-> <<<<"cell", 1>>>>]
  /\ val = [t \in Th |-> <<0>>]
  /\ pc = [t \in Th |-> "idle"]
  /\ loc = [t \in Th |-> [i |-> 0, c |-> 0, n |-> 0]]
  /\ left = [t \in Th |-> Ops]
  /\ clk = [t \in Th |-> [u \in Th |-> IF u = t THEN 1 ELSE 0]]
  /\ bad = "no" /\ sched = <<>>

\* the accesses are ordered before what thread t does now
Before(a, t) == \A u \in Th : u # t => a[u] <= clk[t][u]
Fail(w) == bad' = IF bad = "no" THEN w ELSE bad
ReadOK(p, t) == IF ~pay[p].live THEN "read after free" ELSE IF ~Before(pay[p].wr, t) THEN "race: read" ELSE "no"
WriteOK(p, t) == IF ~pay[p].live THEN "write after free" ELSE IF ~Before(pay[p].wr, t) \/ ~Before(pay[p].rd, t) THEN "race: write" ELSE "no"
Tick(t) == [clk EXCEPT ![t][t] = @ + 1]
FreeCell == CHOOSE c \in Cells : ~cell[c].live /\ cell[c].cnt = 0 /\ cell[c].pay = 0
FreePay == CHOOSE p \in Pays : ~pay[p].live /\ pay[p].val = 0 /\ pay[p].rd = Zero /\ pay[p].wr = Zero
Step(t) == sched' = Append(sched, t)
Quiet == UNCHANGED sched
Handle(t) == own[t][loc[t].i]

\* ---- choosing an operation
Begin(t, op, i) ==
  /\ pc[t] = "idle" /\ i \in DOMAIN own[t]
  /\ IF left[t] > 0 THEN left' = [left EXCEPT ![t] = @ - 1] ELSE op = "free" /\ i = Len(own[t]) /\ UNCHANGED left
  /\ pc' = [pc EXCEPT ![t] = op]
  /\ loc' = [loc EXCEPT ![t] = [i |-> i, c |-> IF own[t][i][1] = "cell" THEN own[t][i][2] ELSE 0, n |-> 0]]
  /\ UNCHANGED <<cell, pay, own, val, clk, bad>> /\ Quiet

\* the payload behind a handle
PayOf(h) == IF h[1] = "pay" THEN h[2] ELSE cell[h[2]].pay
Done(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ loc' = [loc EXCEPT ![t] = [i |-> 0, c |-> 0, n |-> 0]]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Read(t) ==
  /\ pc[t] = "read"
  /\ LET p == PayOf(Handle(t)) IN
     /\ Fail(IF ReadOK(p, t) # "no" THEN ReadOK(p, t) ELSE IF pay[p].val # val[t][loc[t].i] THEN "wrong value" ELSE "no")
     /\ pay' = [pay EXCEPT ![p].rd[t] = clk[t][t]]
  /\ Done(t) /\ UNCHANGED <<cell, own, val, left, clk>> /\ Quiet

Copy(t) ==
  /\ pc[t] = "copy"
  /\ IF Handle(t)[1] = "cell"
     THEN LET c == Handle(t)[2] IN     \* one relaxed increment
       /\ Fail(IF ~cell[c].live THEN "increment after free" ELSE "no")
       /\ cell' = [cell EXCEPT ![c].cnt = @ + 1]
       /\ own' = [own EXCEPT ![t] = Append(@, <<"cell", c>>)]
       /\ Step(t)
     ELSE LET c == FreeCell IN         \* wrapped; nobody else knows the cell
       /\ cell' = [cell EXCEPT ![c] = [live |-> TRUE, cnt |-> 2, pay |-> Handle(t)[2], rel |-> Zero, plain |-> Zero]]
       /\ own' = [own EXCEPT ![t] = Append([@ EXCEPT ![loc[t].i] = <<"cell", c>>], <<"cell", c>>)]
       /\ UNCHANGED bad /\ Quiet
  /\ val' = [val EXCEPT ![t] = Append(@, val[t][loc[t].i])]
  /\ Done(t) /\ UNCHANGED <<pay, left, clk>>

\* ---- writing: take or clone, then change the payload
Write(t) ==
  /\ pc[t] = "write"
  /\ IF Handle(t)[1] = "pay" THEN pc' = [pc EXCEPT ![t] = "change"] /\ UNCHANGED <<loc, bad>> /\ Quiet
     ELSE LET c == Handle(t)[2] IN     \* the counter is read
       /\ Fail(IF ~cell[c].live THEN "counter read after free" ELSE "no")
       /\ pc' = [pc EXCEPT ![t] = IF cell[c].cnt = 1 \/ Early THEN "take" ELSE "clone"]
       /\ UNCHANGED loc /\ Step(t)
  /\ UNCHANGED <<cell, pay, own, val, left, clk>>
\* the decrement: a read-modify-write; publishes the thread's accesses if it is a release, and continues the release sequence
Dec(t, c) == /\ cell' = [cell EXCEPT ![c].cnt = @ - 1, ![c].rel = IF Release THEN Join(@, clk[t]) ELSE @]
             /\ clk' = IF Fence /\ cell[c].cnt = 1 THEN [Tick(t) EXCEPT ![t] = Join(@, cell[c].rel)] ELSE Tick(t)
Take(t) ==
  /\ pc[t] = "take"
  /\ LET c == Handle(t)[2] IN
     /\ Fail(IF ~cell[c].live THEN "decrement after free" ELSE "no")
     /\ Dec(t, c)
     /\ pc' = [pc EXCEPT ![t] = IF cell[c].cnt = 1 THEN "taken" ELSE "clone2"]
  /\ Step(t) /\ UNCHANGED <<pay, own, val, loc, left>>
Taken(t) ==
  /\ pc[t] = "taken"
  /\ LET c == Handle(t)[2] IN
     /\ own' = [own EXCEPT ![t][loc[t].i] = <<"pay", cell[c].pay>>]
     /\ cell' = [cell EXCEPT ![c].live = FALSE]
     /\ Fail(IF ~cell[c].live THEN "double free of the cell" ELSE "no")
  /\ pc' = [pc EXCEPT ![t] = "change"] /\ UNCHANGED <<pay, val, loc, left, clk>> /\ Quiet
Clone(t) ==
  /\ pc[t] \in {"clone", "clone2"}
  /\ LET c == Handle(t)[2]  p == cell[c].pay  n == FreePay IN
     /\ Fail(ReadOK(p, t))
     /\ pay' = [pay EXCEPT ![p].rd[t] = clk[t][t], ![n] = [live |-> TRUE, val |-> pay[p].val, rd |-> Zero, wr |-> [Zero EXCEPT ![t] = clk[t][t]]]]
     /\ own' = [own EXCEPT ![t][loc[t].i] = <<"pay", n>>]
  /\ pc' = [pc EXCEPT ![t] = IF pc[t] = "clone" THEN "release" ELSE "change"]
  /\ UNCHANGED <<cell, val, loc, left, clk>> /\ Quiet
Change(t) ==
  /\ pc[t] = "change"
  /\ LET p == Handle(t)[2]  v == (T + 1) * (val[t][loc[t].i] + 1) + t IN
     /\ Fail(IF WriteOK(p, t) # "no" THEN WriteOK(p, t) ELSE IF pay[p].val # val[t][loc[t].i] THEN "wrong value" ELSE "no")
     /\ pay' = [pay EXCEPT ![p].wr[t] = clk[t][t], ![p].val = v % 100]
     /\ val' = [val EXCEPT ![t][loc[t].i] = v % 100]
  /\ Done(t) /\ UNCHANGED <<cell, own, left, clk>> /\ Quiet
\* dropping a reference to cell loc.c: after a clone, or freeing the handle
Unref(t) ==
  /\ pc[t] = "release" \/ (pc[t] = "free" /\ Handle(t)[1] = "cell")
  /\ LET c == loc[t].c IN
     /\ Fail(IF ~cell[c].live THEN "decrement after free" ELSE "no")
     /\ Dec(t, c)
     /\ pc' = [pc EXCEPT ![t] = CASE cell[c].cnt = 1 -> (IF pc[t] = "free" THEN "lastF" ELSE "lastW")
                                   [] pc[t] = "free" -> "drop" [] OTHER -> "change"]
  /\ Step(t) /\ UNCHANGED <<pay, own, val, loc, left>>
Last(t) ==
  /\ pc[t] \in {"lastF", "lastW"}
  /\ LET c == loc[t].c  p == cell[c].pay IN
     /\ Fail(IF ~cell[c].live THEN "double free of the cell" ELSE WriteOK(p, t))
     /\ pay' = [pay EXCEPT ![p].live = FALSE]
     /\ cell' = [cell EXCEPT ![c].live = FALSE]
  /\ pc' = [pc EXCEPT ![t] = IF pc[t] = "lastF" THEN "drop" ELSE "change"]
  /\ UNCHANGED <<own, val, loc, left, clk>> /\ Quiet
FreeOwn(t) ==
  /\ pc[t] = "free" /\ Handle(t)[1] = "pay"
  /\ LET p == Handle(t)[2] IN Fail(WriteOK(p, t)) /\ pay' = [pay EXCEPT ![p].live = FALSE]
  /\ pc' = [pc EXCEPT ![t] = "drop"] /\ UNCHANGED <<cell, own, val, loc, left, clk>> /\ Quiet
DropHandle(t) ==
  /\ pc[t] = "drop"
  /\ own' = [own EXCEPT ![t] = Drop(@, loc[t].i)] /\ val' = [val EXCEPT ![t] = Drop(@, loc[t].i)]
  /\ Done(t) /\ UNCHANGED <<cell, pay, left, clk, bad>> /\ Quiet

Next == \E t \in Th :
  \/ \E op \in {"read", "copy", "write", "free"}, i \in DOMAIN own[t] : Begin(t, op, i)
  \/ Read(t) \/ Copy(t) \/ Write(t) \/ Take(t) \/ Taken(t) \/ Clone(t) \/ Change(t) \/ Unref(t) \/ Last(t) \/ FreeOwn(t) \/ DropHandle(t)
Spec == Init /\ [][Next]_vars

Over == \A t \in Th : own[t] = <<>> /\ pc[t] = "idle"
Safe == bad = "no"
\* references held, including those about to be dropped or added
Refs(c) == Cardinality({<<t, i>> \in Th \X (1..(Ops + 2)) : i \in DOMAIN own[t] /\ own[t][i] = <<"cell", c>> /\
                          ~(loc[t].i = i /\ pc[t] \in {"taken", "clone2", "lastF", "lastW", "drop"})})
           + Cardinality({t \in Th : pc[t] = "release" /\ loc[t].c = c})
Counted == \A c \in Cells : cell[c].live => cell[c].cnt = Refs(c) + (IF c = 1 THEN Extra ELSE 0)
NoLeak == Over => (/\ \A c \in Cells : cell[c].live <=> (c = 1 /\ Extra = 1)
                   /\ \A p \in Pays : pay[p].live <=> (p = 1 /\ Extra = 1))
\* printed when everything is over: the order of the counter accesses, for the replay
Schedules == (Emit /\ Over) => PrintT(ToString(<<"SC", Len(sched), sched>>))
=============================================================================
