---------------------------- MODULE MCInterleave ----------------------------
(***************************************************************************)
(* Several readers (and stand-alone calls) used in any order.  Each actor    *)
(* is a sequence of results it yields when used alone; the specification     *)
(* says a call yields the actor's next result whatever the others did.       *)
(* Every schedule is printed for replay.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CFG == JsonDeserialize(IOEnv.MC)
Actors == DOMAIN CFG.lengths
VARIABLES at, sched, got
vars == <<at, sched, got>>
Init == at = [a \in Actors |-> 0] /\ sched = <<>> /\ got = [a \in Actors |-> <<>>]
Call(a) == /\ at[a] < CFG.lengths[a]
           /\ at' = [at EXCEPT ![a] = @ + 1] /\ sched' = Append(sched, a)
           /\ got' = [got EXCEPT ![a] = Append(@, at[a] + 1)]
Next == \E a \in Actors : Call(a)
Spec == Init /\ [][Next]_vars
\* what an actor has got is a prefix of what it gets alone
Independent == \A a \in Actors : got[a] = [i \in 1..at[a] |-> i]
Emit == (\A a \in Actors : at[a] = CFG.lengths[a]) => PrintT("@@" \o ToJson(sched))
=============================================================================
