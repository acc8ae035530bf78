------------------------------- MODULE Ledger -------------------------------
(* What a user of the allocation hook may rely on, seen from outside: the    *)
(* blocks that are out, the values the user's objects hold, and the call     *)
(* under way.  A block comes from the allocator as one of two kinds and goes *)
(* back once, as that kind.  Requests may be refused at will.  A call that   *)
(* reports failure leaves exactly the blocks that were out before it (an     *)
(* overwritten destination gives up its own) and every object as it was (an  *)
(* overwritten destination is empty); it may report failure only after a     *)
(* refusal.  When the user holds no object, no block is out.                 *)
EXTENDS Integers, FiniteSets
CONSTANTS Objs,       \* names for the user's objects
          Vals,       \* values they may hold
          Empty,      \* the value of an empty object
          Cow,        \* copy on write: copying may leave the source's storage wrapped for sharing
          Names       \* names for blocks
Kinds == {1, 2}       \* from malloc, calloc and realloc / from aligned_malloc
None == "none"
Idle == [k |-> "idle", d |-> 0, s |-> 0]

VARIABLES live,       \* the blocks that are out: pairs of a name and a kind
          val,        \* what each object holds, or None
          call,       \* the call under way
          before,     \* live when it began
          refused     \* whether it met a refusal
vars == <<live, val, call, before, refused>>

Init == live = {} /\ val = [o \in Objs |-> None] /\ call = Idle /\ before = {} /\ refused = FALSE

\* kinds of calls: "make" a new object d; "copy" a new object d equal to s; "over"write d with s;
\* "ask": reads, and may report failure; "work": changes object d; "drop": frees object d
Calls == {"make", "copy", "over", "ask", "work", "drop"}
Fails == {"make", "copy", "over", "ask", "work"}
Begin(k, d, s) ==
  /\ call = Idle
  /\ k \in {"make", "copy"} => val[d] = None
  /\ k \in {"over", "work", "drop"} => val[d] # None
  /\ k \in {"copy", "over", "ask"} => val[s] # None
  /\ call' = [k |-> k, d |-> d, s |-> s] /\ before' = live /\ refused' = FALSE
  /\ UNCHANGED <<live, val>>
Get(b, kind) ==
  /\ call # Idle /\ \A x \in Kinds : <<b, x>> \notin live
  /\ live' = live \cup {<<b, kind>>}
  /\ UNCHANGED <<val, call, before, refused>>
Refuse == call # Idle /\ refused' = TRUE /\ UNCHANGED <<live, val, call, before>>
Return(b, kind) ==
  /\ call # Idle /\ <<b, kind>> \in live
  /\ live' = live \ {<<b, kind>>}
  /\ UNCHANGED <<val, call, before, refused>>
Balanced(l, v) == (\A o \in Objs : v[o] = None) => l = {}
Succeed(v) ==
  /\ call # Idle
  /\ LET c == call IN
     /\ val' = CASE c.k \in {"make", "work"} -> [val EXCEPT ![c.d] = v]
                 [] c.k \in {"copy", "over"} -> [val EXCEPT ![c.d] = val[c.s]]
                 [] c.k = "drop" -> [val EXCEPT ![c.d] = None]
                 [] OTHER -> val
     /\ c.k = "ask" => live = before          \* an answer keeps nothing
     /\ c.k = "drop" => live \subseteq before
  /\ Balanced(live, val')
  /\ call' = Idle /\ before' = {} /\ refused' = FALSE /\ UNCHANGED live
Fail ==
  /\ call.k \in Fails /\ refused
  /\ val' = IF call.k = "over" THEN [val EXCEPT ![call.d] = Empty] ELSE val
  /\ IF Cow /\ call.k = "copy" THEN before \subseteq live
     ELSE IF Cow /\ call.k = "over" THEN TRUE
     ELSE IF call.k = "over" THEN Cardinality(live) <= Cardinality(before)
     ELSE live = before
  /\ Balanced(live, val')
  /\ call' = Idle /\ before' = {} /\ refused' = FALSE /\ UNCHANGED live

Next == \/ \E k \in Calls, d \in Objs, s \in Objs : Begin(k, d, s)
        \/ \E b \in Names, kind \in Kinds : Get(b, kind) \/ Return(b, kind)
        \/ Refuse \/ Fail
        \/ \E v \in Vals : Succeed(v)
Spec == Init /\ [][Next]_vars
NoLeak == call = Idle => Balanced(live, val)
OneKind == \A p, q \in live : p[1] = q[1] => p = q
=============================================================================
