----------------------------- MODULE ScenInput -----------------------------
EXTENDS Input, Num, TLC
VARIABLE s
N == IF Env("VP_TIER") = "thorough" THEN 8 ELSE 2
Init == \E e \in Ests : \/ \E k \in Faults(e), n \in 1..N : s = [est |-> e, what |-> "fault", kind |-> k, n |-> n]
                        \/ \E k \in Options(e), n \in 1..N : s = [est |-> e, what |-> "option", kind |-> k, n |-> n]
                        \/ \E k \in Forms(e), n \in 1..N : s = [est |-> e, what |-> "form", kind |-> k, n |-> n]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
