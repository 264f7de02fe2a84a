----------------------------- MODULE ScenGlmT -----------------------------
(* Temporal Ising / Poisson models.                                        *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Init == \E f \in {"ising", "poisson"}, via \in {"fn", "class"}, psi \in {"laplacian", "l1", "l2", "linf", "node"},
           T \in {1, 2, 3, 4, 6}, ker \in {"none", "chain", "dense", "eye", "callable", "const", "short"}, al \in {"small", "mid", "big"},
           lab \in {"int", "float", "neg"}, hist \in BOOLEAN, rho \in {"one", "less", "more"}, stop \in BOOLEAN :
          /\ stop => via = "fn" /\ hist /\ psi # "node"
          /\ T = 6 => via = "fn" /\ psi # "node" /\ ker \in {"chain", "dense"}
          /\ via = "fn" => lab = "int" /\ ker \notin {"callable", "const", "short"}
          /\ via = "class" => psi \in {"laplacian", "l1"} /\ al = "mid"
          /\ psi = "node" => T <= 3
          /\ f = "poisson" /\ T = 1 => al # "small"
          /\ s = [fam |-> f, via |-> via, psi |-> psi, T |-> T, ker |-> ker, al |-> al, lab |-> lab, hist |-> hist, rho |-> rho, stop |-> stop]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
