----------------------------- MODULE LedgerTrace -----------------------------
(* Is a recorded log of calls and of the allocations made inside them a      *)
(* behaviour of Ledger.tla?  TLC follows the log; it gets stuck at the first *)
(* entry the specification does not allow.                                   *)
EXTENDS Ledger, Sequences, Json
CONSTANT File,        \* the log, one JSON list <<what, ...>> per line
         Regs         \* objects created by "start"
Log == ndJsonDeserialize(File)
VARIABLE i
tvars == <<vars, i>>
Next_(r) ==
  CASE r[1] = "begin" /\ r[2] \in {"start", "end"} ->
         /\ call = Idle /\ call' = [Idle EXCEPT !.k = r[2]] /\ before' = live /\ refused' = FALSE /\ UNCHANGED <<live, val>>
    [] r[1] = "begin" -> Begin(r[2], r[3], r[4])
    [] r[1] = "get" -> Get(r[2], r[3])
    [] r[1] = "ret" -> Return(r[2], r[3])
    [] r[1] = "refuse" -> Refuse
    [] r[1] = "ok" /\ call.k \in {"start", "end"} ->
         /\ val' = [o \in Objs |-> IF call.k = "start" /\ o \in Regs THEN Empty ELSE None]
         /\ Balanced(live, val')
         /\ call' = Idle /\ before' = {} /\ refused' = FALSE /\ UNCHANGED live
    [] r[1] = "ok" -> Succeed(r[2])
    [] r[1] = "fail" -> Fail
    [] r[1] = "holds" -> val[r[2]] = r[3] /\ UNCHANGED vars
TInit == Init /\ i = 0
TNext == \/ i < Len(Log) /\ Next_(Log[i + 1]) /\ i' = i + 1
         \/ i = Len(Log) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
Followed == i = Len(Log)
=============================================================================
