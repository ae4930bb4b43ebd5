---------------------------- MODULE MCLifecycle ----------------------------
(***************************************************************************)
(* Life of a message: it is created from objects that belong to the caller  *)
(* (field list, user table), hands out a field list on request, and is then  *)
(* subject to any history of operations.  Objects are cells of a heap; the   *)
(* message owns a cell of its own.  A message may be copied; what follows    *)
(* then befalls the copy, and its elders live on.  With copies = FALSE the specification    *)
(* aliases the caller's cell instead (used to show the invariant has teeth). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CFG == JsonDeserialize(IOEnv.MC)

Origins == {"parse", "reader", "fields", "keywords", "usertable", "built"}
Denied  == {"set_attr", "set_new", "set_private", "set_property", "iadd_payload", "del_attr", "del_private", "del_missing", "set_flag"}
Views   == {"serialize", "str", "repr", "payload", "identity"}
Edits   == {"got_append", "got_clear", "got_item", "src_append", "src_clear", "src_item", "tab_clear", "tab_edit"}
Copying == IF CFG.copying THEN {"copy", "deepcopy", "pickle"} ELSE {}
Ops     == Denied \cup Views \cup Edits \cup Copying

VARIABLES origin, heap, own, elders, got, src, tab, hist, seen
vars == <<origin, heap, own, elders, got, src, tab, hist, seen>>
\* heap: cell -> content; own, got, src, tab: cells
Init == /\ origin \in Origins
        /\ heap = (1 :> "fields") @@ (2 :> "table") @@ (3 :> "fields")
        /\ src = 1 /\ tab = 2 /\ own = (IF CFG.copies THEN 3 ELSE 1) /\ got = 0 /\ elders = {}
        /\ hist = <<>> /\ seen = <<>>
Content == heap[own]
NewCell == Cardinality(DOMAIN heap) + 1
Deny(op) == /\ op \in Denied /\ hist' = Append(hist, op) /\ seen' = Append(seen, "NMEAMessageError")
            /\ UNCHANGED <<origin, heap, own, elders, got, src, tab>>
View(op) == /\ op \in Views /\ hist' = Append(hist, op) /\ seen' = Append(seen, "ok")
            /\ IF op = "payload" THEN
                 LET c == IF CFG.copies THEN NewCell ELSE own IN
                 got' = c /\ heap' = (c :> heap[own]) @@ heap
               ELSE UNCHANGED <<got, heap>>
            /\ UNCHANGED <<origin, own, elders, src, tab>>
Target(op) == CASE op \in {"got_append", "got_clear", "got_item"} -> got
                [] op \in {"src_append", "src_clear", "src_item"} -> src [] OTHER -> tab
Edit(op) == /\ op \in Edits /\ Target(op) # 0
            /\ (Target(op) = src => origin \in {"fields"}) /\ (Target(op) = tab => origin = "usertable")
            /\ heap' = [heap EXCEPT ![Target(op)] = op]
            /\ hist' = Append(hist, op) /\ seen' = Append(seen, "ok")
            /\ UNCHANGED <<origin, own, elders, got, src, tab>>
Copy(op) == /\ op \in Copying /\ hist' = Append(hist, op) /\ seen' = Append(seen, "ok")
            /\ LET c == IF CFG.copies THEN NewCell ELSE own IN own' = c /\ heap' = (c :> heap[own]) @@ heap
            /\ elders' = elders \cup {own}
            /\ UNCHANGED <<origin, got, src, tab>>
Next == Len(hist) < CFG.depth /\ \E op \in Ops : Deny(op) \/ View(op) \/ Edit(op) \/ Copy(op)
Spec == Init /\ [][Next]_vars
Unchanged == Content = "fields" /\ \A c \in elders : heap[c] = "fields"
NeverAliased == CFG.copies => ({own} \cup elders) \cap {got, src, tab} = {} /\ own \notin elders
Emit == Len(hist) = CFG.depth => PrintT("@@" \o ToJson([o |-> origin, h |-> hist, s |-> seen]))
=============================================================================
