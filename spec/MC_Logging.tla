----------------------------- MODULE MC_Logging -----------------------------
(* Every short history of configurations and messages: no message reaches two *)
(* directories or one of them twice, each directory keeps the order in which  *)
(* its messages were sent and never loses one.                                *)
EXTENDS Logging, FiniteSets
CONSTANT N
Dirs == {"a", "b"}
VARIABLES st, sent
vars == <<st, sent>>
Init == st = Start(Dirs) /\ sent = 0
Conf(d, lv, ok) == st' = Configured(st, d, lv, ok) /\ UNCHANGED sent
Emit(lv) == sent < N /\ st' = Emitted(st, lv, sent + 1) /\ sent' = sent + 1
Next == \/ \E d \in Dirs, lv \in {"Error", "Info", "Trace"}, ok \in BOOLEAN : Conf(d, lv, ok)
        \/ \E lv \in DOMAIN Severity : Emit(lv)
Spec == Init /\ [][Next]_vars

Places(m) == {<<d, k>> \in Dirs \X (1..N) : k <= Len(st.files[d]) /\ st.files[d][k].m = m}
OncePlaced == \A m \in 1..N : Cardinality(Places(m)) <= (IF m <= sent THEN 1 ELSE 0)
InOrder == \A d \in Dirs : \A k \in 1..(Len(st.files[d]) - 1) : st.files[d][k].m < st.files[d][k + 1].m
Admissible == [][\A d \in Dirs : Len(st'.files[d]) > Len(st.files[d])
                   => Severity[st'.files[d][Len(st'.files[d])].lv] <= st.level]_vars
Kept == [][\A d \in Dirs : \E k \in {0, 1} : Len(st'.files[d]) = Len(st.files[d]) + k
             /\ SubSeq(st'.files[d], 1, Len(st.files[d])) = st.files[d]]_vars
OnlyLast == [][\A d \in Dirs : st'.files[d] # st.files[d] => st.dir = d]_vars
=============================================================================
