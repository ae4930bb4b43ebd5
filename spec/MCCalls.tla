----------------------------- MODULE MCCalls -----------------------------
(***************************************************************************)
(* Histories of calls whose results the caller goes on to change.  A call   *)
(* with input k answers with a new cell that holds F(k); the caller may      *)
(* edit any result it holds.                                                 *)
(* Whatever it did, the next call with input k                               *)
(* answers F(k), and results it did not edit still hold what they held.      *)
(* With memo = TRUE the specification answers a repeated call with the cell  *)
(* it answered before (used to show the invariants have teeth).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CFG == JsonDeserialize(IOEnv.MC)
Inputs == 1..CFG.inputs
VARIABLES heap, res, edited, hist
vars == <<heap, res, edited, hist>>
\* heap: content of the cells; res: <<input, cell>> of every call; edited: calls whose result was edited
F(k) == <<k>>
Init == heap = <<>> /\ res = <<>> /\ edited = {} /\ hist = <<>>
Known(k) == {i \in DOMAIN res : res[i][1] = k}
Call(k) == /\ IF CFG.memo /\ Known(k) # {}
              THEN res' = Append(res, res[CHOOSE i \in Known(k) : TRUE]) /\ UNCHANGED heap
              ELSE heap' = Append(heap, F(k)) /\ res' = Append(res, <<k, Len(heap) + 1>>)
           /\ hist' = Append(hist, [op |-> "call", k |-> k]) /\ UNCHANGED edited
Edit(i) == /\ i \in DOMAIN res /\ heap' = [heap EXCEPT ![res[i][2]] = Append(@, 0)]
           /\ edited' = edited \cup {i} /\ hist' = Append(hist, [op |-> "edit", k |-> i]) /\ UNCHANGED res
Next == Len(hist) < CFG.depth /\ ((\E k \in Inputs : Call(k)) \/ \E i \in DOMAIN res : Edit(i))
Spec == Init /\ [][Next]_vars
Fresh  == \A i \in DOMAIN res : i \notin edited => heap[res[i][2]] = F(res[i][1])
Single == \A i, j \in DOMAIN res : i # j => res[i][2] # res[j][2]
Emit   == Len(hist) = CFG.depth => PrintT("@@" \o ToJson(hist))
=============================================================================
