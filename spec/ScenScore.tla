----------------------------- MODULE ScenScore -----------------------------
(* An estimator fitted on one data set and scored on another; error norms. *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Init == \E e \in {"GL", "LGL", "TGL", "LTGL", "KTGL", "KLTGL", "FB", "norm", "norm3"},
           norm \in {"frobenius", "spectral"}, sc \in BOOLEAN, sq \in BOOLEAN :
        \/ /\ e \notin {"norm", "norm3"}
           /\ \E test \in {"train", "other", "unbalanced", "shifted", "single"}, cent \in BOOLEAN :
                s = [est |-> e, norm |-> norm, scaling |-> sc, squared |-> sq, test |-> test, cent |-> cent]
        \/ /\ e = "norm" /\ \E up \in BOOLEAN : s = [est |-> e, norm |-> norm, scaling |-> sc, squared |-> sq, upper |-> up, unit |-> FALSE]
        \/ /\ e = "norm3" /\ norm = "frobenius" /\ \E up \in BOOLEAN, u \in BOOLEAN :
                s = [est |-> e, norm |-> norm, scaling |-> sc, squared |-> sq, upper |-> up, unit |-> u]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
