------------------------------- MODULE MCWalk -------------------------------
(***************************************************************************)
(* The attribute walk as a machine with an explicit stack, over every       *)
(* definition of a family of shapes and every payload length; compared with *)
(* the functional Walk used in trace validation and with declarative        *)
(* properties.  Complete behaviours are printed for replay through          *)
(* user-defined definitions.                                                *)
(***************************************************************************)
EXTENDS Message
CFG == JsonDeserialize(IOEnv.MC)

A(n) == [k |-> "a", n |-> n, t |-> "ST"]
N(n) == [k |-> "a", n |-> n, t |-> "IN"]
G(n, c, i, m, d) == [k |-> "g", n |-> n, c |-> c, i |-> i, m |-> m, d |-> d]
Prefixs == << <<>>, <<A("p1")>>, <<N("num")>>, <<A("p1"), N("num")>>, <<N("num"), A("p1")>>, <<A("p1"), A("p2"), N("num")>> >>
HasNum(i) == i \in {3, 4, 5, 6}
NumPos(i) == CASE i \in {3, 5} -> 1 [] i = 4 -> 2 [] i = 6 -> 3 [] OTHER -> 0
\* group bodies; x distinguishes the names of several groups
Bodies(x) == << <<A(x \o "a")>>, <<A(x \o "a"), A(x \o "b")>>, <<A(x \o "a"), A(x \o "b"), A(x \o "c")>>,
                <<A(x \o "a"), G(x \o "g", "fix", 2, "", <<A(x \o "b")>>)>>,
                <<G(x \o "g", "fix", 2, "", <<A(x \o "a"), A(x \o "b")>>), A(x \o "c")>>,
                <<A(x \o "a"), G(x \o "g", "att", 0, "num", <<A(x \o "b")>>)>>,
                <<A(x \o "a"), G(x \o "g", "fix", 2, "", <<G(x \o "h", "fix", 2, "", <<A(x \o "b")>>), A(x \o "c")>>)>> >>
NestsNum(b) == b = 6
Kinds == {"fix1", "fix2", "fix3", "att", "ind"}
MkG(x, kind, b) ==
  CASE kind = "fix1" -> G("g" \o x, "fix", 1, "", Bodies(x)[b]) [] kind = "fix2" -> G("g" \o x, "fix", 2, "", Bodies(x)[b])
    [] kind = "fix3" -> G("g" \o x, "fix", 3, "", Bodies(x)[b]) [] kind = "att" -> G("g" \o x, "att", 0, "num", Bodies(x)[b])
    [] OTHER -> G("g" \o x, "ind", 0, "", Bodies(x)[b])
Tails == {"none", "attr", "group", "both"}

Shapes == {s \in [pre : DOMAIN Prefixs, kind : Kinds, body : 1..CFG.bodies, tail : Tails] :
             /\ (s.kind = "att" \/ NestsNum(s.body)) => HasNum(s.pre)
             /\ (s.kind = "ind") => s.body <= 3}
DefOf(s) == Prefixs[s.pre] \o <<MkG("x", s.kind, s.body)>>
            \o (IF s.tail \in {"attr", "both"} THEN <<A("z1")>> ELSE <<>>)
            \o (IF s.tail \in {"group", "both"} THEN <<G("gy", "fix", 2, "", <<A("ya"), A("yb")>>)>> ELSE <<>>)
Counts == {"0", "1", "2", "3", "9", "", "-1"}
Payload(s, len, c) == [k \in 1..len |-> IF HasNum(s.pre) /\ k = NumPos(s.pre) THEN T(c) ELSE T("f" \o ToString(k))]

VARIABLES shape, pl, stack, p, out, status
vars == <<shape, pl, stack, p, out, status>>
Init == /\ \E s \in Shapes, len \in 0..CFG.maxlen, c \in Counts :
             /\ (~HasNum(s.pre) => c = "1")
             /\ shape = s /\ pl = Payload(s, len, c)
        /\ stack = <<[d |-> DefOf(shape), e |-> 1, r |-> 0, c |-> 1]>>   \* r = 0: not a repetition
        /\ p = 1 /\ out = <<>> /\ status = "running"

Top == stack[Len(stack)]
Ix  == [k \in 1..(Len(stack) - 1) |-> stack[k + 1].r]
El  == Top.d[Top.e]
NextEntry == [stack EXCEPT ![Len(stack)].e = @ + 1]
Go == status = "running"
AtEntry == Go /\ Top.e <= Len(Top.d)
Assign == /\ AtEntry /\ El.k = "a" /\ p <= Len(pl)
          /\ LET d == Decoded(El.t, pl[p]) IN
             /\ status' = IF d.st = "err" THEN "error" ELSE "running"
             /\ out' = Append(out, [n |-> El.n \o Suffix(Ix), t |-> El.t, v |-> pl[p]])
             /\ p' = p + 1 /\ stack' = NextEntry
          /\ UNCHANGED <<shape, pl>>
Absent == /\ AtEntry /\ El.k = "a" /\ p > Len(pl)      \* field not there: attribute not there
          /\ stack' = NextEntry /\ UNCHANGED <<shape, pl, p, out, status>>
CountOf(el) == CASE el.c = "fix" -> [st |-> "ok", c |-> el.i]
                 [] p > Len(pl) -> [st |-> "ok", c |-> 0]
                 [] el.c = "ind" -> [st |-> "ok", c |-> (Len(pl) - (p - 1)) \div Len(el.d)]
                 [] OTHER -> DeclCount(out, el.m, pl)
Enter == /\ AtEntry /\ El.k = "g"
         /\ LET c == CountOf(El) IN
            IF c.st # "ok" THEN status' = "error" /\ UNCHANGED stack
            ELSE /\ status' = status
                 /\ stack' = IF c.c > 0 /\ p <= Len(pl) THEN Append(NextEntry, [d |-> El.d, e |-> 1, r |-> 1, c |-> c.c]) ELSE NextEntry
         /\ UNCHANGED <<shape, pl, p, out>>
Repeat == /\ Go /\ Top.e > Len(Top.d) /\ Len(stack) > 1 /\ Top.r < Top.c /\ p <= Len(pl)
          /\ stack' = [stack EXCEPT ![Len(stack)] = [@ EXCEPT !.e = 1, !.r = @ + 1]]
          /\ UNCHANGED <<shape, pl, p, out, status>>
Leave == /\ Go /\ Top.e > Len(Top.d) /\ Len(stack) > 1 /\ (Top.r = Top.c \/ p > Len(pl))
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ UNCHANGED <<shape, pl, p, out, status>>
Done == /\ Go /\ Top.e > Len(Top.d) /\ Len(stack) = 1
        /\ status' = "done" /\ UNCHANGED <<shape, pl, stack, p, out>>
Next == Assign \/ Absent \/ Enter \/ Repeat \/ Leave \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* no field skipped, shifted or used twice
Aligned == /\ p = Len(out) + 1 /\ Len(out) <= Len(pl)
           /\ \A k \in DOMAIN out : out[k].v = pl[k]
Unique  == \A a, b \in DOMAIN out : out[a].n = out[b].n => a = b
\* the machine and the functional walk agree
Agrees  == /\ status = "done"  => (LET w == Walk(DefOf(shape), pl) IN ~w.err /\ w.out = out)
           /\ status = "error" => Walk(DefOf(shape), pl).err
\* a repeated group is complete: its attributes appear with indices 1..n without hole
NoHole  == status = "done" => \A k \in DOMAIN out :
             LET n == out[k].n  L == Len(n) IN
             (L > 3 /\ SubSeq(n, L - 2, L - 2) = "_" /\ SubSeq(n, L - 1, L) # "01") =>
               LET i == ToNat(T(SubSeq(n, L - 1, L)))
                   prev == SubSeq(n, 1, L - 3) \o (IF i <= 10 THEN "_0" ELSE "_") \o ToString(i - 1)
               IN  \E q \in 1..(k - 1) : out[q].n = prev
Terminates == <>(status # "running")
Emit == status # "running" => PrintT("@@" \o ToJson([d |-> DefOf(shape), pl |-> [k \in DOMAIN pl |-> ToS(pl[k])], st |-> status,
                                                       out |-> [k \in DOMAIN out |-> out[k].n]]))
=============================================================================
