----------------------------- MODULE ScenStruct -----------------------------
(* Pairs of true and predicted graphs: every pair of graphs on three nodes *)
(* (fam "small") and classes of larger random pairs.                       *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Init == \/ \E a \in 0..7, b \in 0..7, diag \in {"one", "zero", "pred"}, nod \in BOOLEAN, thr \in BOOLEAN, sgn \in {"pos", "neg"} :
             s = [fam |-> "small", a |-> a, b |-> b, diag |-> diag, nod |-> nod, thr |-> thr, sgn |-> sgn, nd |-> 2]
        \/ \E a \in {"empty", "sparse", "half", "full"}, b \in {"same", "empty", "full", "noisy", "random", "weak"},
              diag \in {"one", "zero", "pred"}, nod \in BOOLEAN, thr \in BOOLEAN, sgn \in {"pos", "neg", "mix"}, nd \in {2, 3} :
             s = [fam |-> "rand", a |-> a, b |-> b, diag |-> diag, nod |-> nod, thr |-> thr, sgn |-> sgn, nd |-> nd]
        \/ \E a \in {"sparse", "half"}, b \in {"noisy", "random"}, diag \in {"one", "zero"}, sgn \in {"mix", "pos"} :
             s = [fam |-> "mean", a |-> a, b |-> b, diag |-> diag, nod |-> TRUE, thr |-> FALSE, sgn |-> sgn, nd |-> 2]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
