----------------------------- MODULE ScenGlm -----------------------------
(* Static generalised linear graphical models.                             *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Init == \E f \in {"gauss", "poisson", "ising", "logit"}, how \in {"union", "intersection", "UNION"},
           al \in {"tiny", "small", "mid", "big", "huge"}, run \in {"converged", "short", "one", "loose"},
           data \in {"tall", "dep", "column", "tiny"}, verb \in {0, 1, 2}, icpt \in BOOLEAN :
          /\ icpt => f = "poisson"
          /\ f = "ising" => how = "union"
          /\ f = "logit" => al # "tiny" /\ run = "converged" /\ data \notin {"column", "tiny"}
          /\ f = "poisson" => run # "loose"
          /\ s = [fam |-> f, how |-> how, al |-> al, run |-> run, data |-> data, verb |-> verb, icpt |-> icpt]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
