----------------------------- MODULE ScenLife ------------------------------
(* All histories of an estimator of bounded length that end in an          *)
(* observation worth comparing (a fitted state).                           *)
EXTENDS Num, TLC
Params == {"P1", "P2"}
Data == {"D1", "D2"}
INSTANCE Lifecycle
VARIABLES st, hist
MaxLen == IF Env("VP_TIER") = "thorough" THEN 5 ELSE 4
Init == st = New("P1") /\ hist = <<>>
Fits == Len(SelectSeq(hist, LAMBDA o : o.op = "fit"))
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops : Enabled(st, o) /\ st' = Apply(st, o) /\ hist' = Append(hist, o)
\* a history with at least one state-changing step before the last fit, or an observer after it
Interesting == st.fit # NoFit /\ Len(hist) >= 2
Emit == Interesting => EmitJson(Env("VP_OUT"), [ops |-> hist])
TypeOK == st.par \in Params /\ (st.fit = NoFit \/ (st.fit.p \in Params /\ st.fit.d \in Data))
=============================================================================
