----------------------------- MODULE ScenMiss -----------------------------
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Init == \E via \in {"fn", "cls"}, pat \in {"none", "one", "few", "many", "column", "row", "allrow"}, data \in {"centred", "shifted", "scaled", "corr"},
           al \in {"small", "mid", "big"}, run \in {"converged", "short"}, d \in {2, 3, 4}, hist \in BOOLEAN, ovr \in {"plain", "relaxed"} :
          s = [via |-> via, pat |-> pat, data |-> data, al |-> al, run |-> run, d |-> d, hist |-> hist, ovr |-> ovr]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
