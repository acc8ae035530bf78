-------------------------------- MODULE Alloc --------------------------------
(* Who holds which block.  The library behind the hook, in the abstract:     *)
(* blocks obtained by a call are the call's own until it ends; on success    *)
(* they pass to the object it makes or changes, which may share blocks with  *)
(* the object it copies (copy on write); before it reports failure it has    *)
(* given back its own.  A block goes back when its last holder lets go.      *)
(* TLC checks that this discipline yields the ledger of Ledger.tla.          *)
EXTENDS Ledger
VARIABLES own,        \* block -> the objects that hold it
          mine        \* blocks of the call under way
avars == <<vars, own, mine>>
Out == {p[1] : p \in live}
Held(o) == {b \in Names : o \in own[b]}

AInit == Init /\ own = [b \in Names |-> {}] /\ mine = {}
ABegin(k, d, s) == Begin(k, d, s) /\ UNCHANGED <<own, mine>>
AGet(b, kind) == Get(b, kind) /\ mine' = mine \cup {b} /\ UNCHANGED own
ARefuse == call.k \in Fails /\ Refuse /\ UNCHANGED <<own, mine>>
\* the call gives back a block of its own
AGiveBack(b, kind) == b \in mine /\ Return(b, kind) /\ mine' = mine \ {b} /\ UNCHANGED own
\* or one only its object holds: freeing it, overwriting it, or changing it in place (not while failing)
ALetGo(b, kind) ==
  /\ call.k \in {"drop", "over"} \/ (call.k = "work" /\ ~refused)
  /\ own[b] = {call.d} /\ Return(b, kind)
  /\ own' = [own EXCEPT ![b] = {}] /\ UNCHANGED mine
\* one among several holders lets go without the block going back
AUnshare(b) ==
  /\ call.k \in {"drop", "over"} \/ (call.k = "work" /\ ~refused)
  /\ call.d \in own[b] /\ Cardinality(own[b]) > 1
  /\ own' = [own EXCEPT ![b] = @ \ {call.d}] /\ UNCHANGED <<vars, mine>>
ASucceed(v, shared) ==
  /\ call.k # "ask" => ~refused
  /\ call.k \in {"drop", "ask"} => mine = {}
  /\ call.k \in {"drop", "over"} => Held(call.d) = {}
  /\ shared \subseteq IF call.k \in {"copy", "over"} THEN Held(call.s) ELSE {}
  /\ Succeed(v)
  /\ own' = [b \in Names |-> IF b \in mine \cup shared THEN own[b] \cup {call.d} ELSE own[b]]
  /\ mine' = {}
AFail ==
  /\ mine = {} /\ (call.k = "over" => Held(call.d) = {})
  /\ Fail /\ UNCHANGED <<own, mine>>
ANext == \/ \E k \in Calls, d \in Objs, s \in Objs : (k = "over" => d # s) /\ ABegin(k, d, s)
         \/ \E b \in Names, kind \in Kinds : AGet(b, kind) \/ AGiveBack(b, kind) \/ ALetGo(b, kind)
         \/ \E b \in Names : AUnshare(b)
         \/ ARefuse \/ AFail
         \/ \E v \in Vals, shared \in SUBSET Names : ASucceed(v, shared)
ASpec == AInit /\ [][ANext]_avars

\* the discipline explains every block that is out, and gives the ledger's promises
Accounted == /\ Out = mine \cup {b \in Names : own[b] # {}}
             /\ \A b \in Names : own[b] \subseteq {o \in Objs : val[o] # None}
             /\ call = Idle => mine = {}
Implements == [][Next]_vars
=============================================================================
