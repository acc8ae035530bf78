------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Several threads, each with its own pool of bitmaps (SetMachine), and one*)
(* bitmap they all may read.  Between phases one thread alone hands bitmaps*)
(* over: copies (sharing storage under copy-on-write) or moves.  Within a  *)
(* phase the threads' calls interleave freely; a call of one thread changes*)
(* nothing of another (Apart), so every interleaving of a phase gives each *)
(* thread the same answers: the replay checks them against the order TLC   *)
(* happened to draw and runs the phase under other orders, down to the     *)
(* single accesses to reference counters (Sharing).                        *)
(***************************************************************************)
EXTENDS AtomSets, Randomization
CONSTANTS T,          \* number of threads
          N,          \* registers per thread; the last one is the common bitmap
          OpSeq, AliasOps, Ways, Dens,
          Phase,      \* calls in a phase
          Depth,      \* steps of a history
          Cow         \* copy on write: calls that may share storage with an operand count as using it
Exhaustive == FALSE
Thread == 0..(T-1)
Common == N - 1
VARIABLES pool,       \* pool[t]: registers of thread t
          begun,      \* calls made by each thread
          at,         \* position in the phase: < 0 handing over, >= 0 running
          step, ev
vars == <<pool, begun, at, step, ev>>
P(t) == INSTANCE SetMachine WITH reg <- pool[t]
Own == 0..(N-2)
Fresh == [s |-> {}, ro |-> FALSE, lz |-> 0]

\* calls that read their operands and nothing else, also under copy-on-write
Reads == {"eq", "sub", "ssub", "isect", "cand", "cor", "cxor", "candnot", "jac", "has", "hasR", "cardR", "isectR", "rank", "rankM", "sel", "selp",
          "idx", "min", "max", "empty", "card", "page", "arr", "iter", "walk", "stat", "ser", "view"}
\* calls whose result may share the storage of their operands
Binary == {"and", "or", "xor", "andnot", "iand", "ior", "ixor", "iandnot", "lor", "lior", "lxor", "lixor", "eq", "sub", "ssub", "isect", "cand", "cor",
           "cxor", "candnot", "jac"}
Listed == {"orm", "orheap", "xorm"}
MayUse(op, x) == x # Common \/ ~Cow \/ op \in Reads

Init == /\ pool = [t \in Thread |-> [r \in 0..(N-1) |-> Fresh]]
        /\ begun = [t \in Thread |-> 0]
        /\ at = 0 /\ step = 0 /\ ev = <<"init", 0>>
Obs(r) == [x \in 1..N |-> <<P(0)!Mask(r[x-1].s), r[x-1].lz, IF r[x-1].ro THEN 1 ELSE 0>>]

\* ---- handing over (no thread is running)
Copyable(t, r) == pool[t][r].lz = 0
Give(t, d, u, s, moved) ==
  /\ at < 0
  /\ LET ok == Copyable(u, s) /\ t # u /\ (moved => pool[t][d].lz = 0) IN
     /\ pool' = IF ~ok THEN pool
                ELSE IF moved THEN [pool EXCEPT ![t][d] = pool[u][s], ![u][s] = Fresh]
                ELSE [pool EXCEPT ![t][d] = [Fresh EXCEPT !.s = pool[u][s].s]]
     /\ ev' = <<IF ok THEN "give" ELSE "none", t>>
     /\ PrintT(ToString(<<"TG", step + 1, IF ~ok THEN 0 ELSE IF moved THEN 2 ELSE 1, t, d, u, s>>))
  /\ at' = at + 1 /\ step' = step + 1 /\ UNCHANGED begun
SetCommon(u, s) ==
  /\ at < 0
  /\ LET ok == Copyable(u, s) IN
     /\ pool' = IF ok THEN [t \in Thread |-> [pool[t] EXCEPT ![Common] = [Fresh EXCEPT !.s = pool[u][s].s]]] ELSE pool
     /\ ev' = <<IF ok THEN "common" ELSE "none", u>>
     /\ PrintT(ToString(<<"TG", step + 1, IF ok THEN 3 ELSE 0, 0, Common, u, s>>))
  /\ at' = at + 1 /\ step' = step + 1 /\ UNCHANGED begun

\* ---- one call of thread t
Call(t, op, d, a, b, p, q, k, m, l) ==
  /\ at >= 0
  /\ LET o == P(t)!Do(op, d, a, b, p, q, k, m, l)
         ok == o.ok /\ MayUse(op, a) /\ (op \in Binary => MayUse(op, b)) /\ (op \in Listed => \A i \in DOMAIN l : MayUse(op, l[i])) IN
     /\ pool' = IF ok THEN [pool EXCEPT ![t] = o.reg] ELSE pool
     /\ ev' = <<"call", t>>
     /\ PrintT(ToString(<<"TE", step + 1, IF ok THEN op ELSE "nop", d, a, b, p, q, k, P(t)!Mask(m), "L", Len(l), l,
                          "R", o.ret, "S", Obs(IF ok THEN o.reg ELSE pool[t]), "T", t>>))
  /\ begun' = [begun EXCEPT ![t] = @ + 1]
  /\ at' = IF at + 1 = Phase THEN 0 - RandomElement(1..4) ELSE at + 1
  /\ step' = step + 1

RandSet(x) == P(0)!RandSet(x)
RandNext ==
  /\ step < Depth
  /\ IF at < 0
     THEN \E t \in {RandomElement(Thread)}, u \in {RandomElement(Thread)}, d \in {RandomElement(Own)}, s \in {RandomElement(Own)}, w \in {RandomElement(1..6)} :
            CASE w = 1 -> SetCommon(u, s) [] w = 2 -> Give(t, d, u, s, TRUE) [] OTHER -> Give(t, d, u, s, FALSE)
     ELSE \E t \in {RandomElement(Thread)} :
          \E op \in {IF begun[t] < N - 1 THEN (IF RandomElement(1..2) = 1 THEN "build" ELSE "ofA") ELSE OpSeq[RandomElement(1..Len(OpSeq))]},
             d \in {IF begun[t] < N - 1 THEN begun[t] ELSE RandomElement(Own)},
             a \in {RandomElement(0..(N-1))}, b \in {RandomElement(0..(N-1))},
             p \in {RandomElement(Point)}, q \in {RandomElement(Point)}, k \in {RandomElement(0..(Ways-1))},
             m \in {RandSet(0)}, n \in {RandomElement(0..4)} :
          \E l \in {[i \in 1..n |-> RandomElement(0..(N-1))]} : Call(t, op, d, a, b, p, q, k, m, l)
RandSpec == Init /\ [][RandNext]_vars

\* a call leaves every other thread's pool and the common bitmap alone
Apart == [][ev'[1] = "call" => \A t \in Thread : /\ (t # ev'[2] => pool'[t] = pool[t]) /\ pool'[t][Common] = pool[t][Common]]_vars
TypeOK == /\ \A t \in Thread, r \in 0..(N-1) : pool[t][r].s \subseteq Atom
          /\ \A t \in Thread : pool[t][Common] = pool[0][Common]
=============================================================================
