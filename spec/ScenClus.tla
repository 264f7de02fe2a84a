----------------------------- MODULE ScenClus -----------------------------
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Sim == \E m \in {"TGL", "LTGL", "ISING"}, T \in 2..5, k \in 0..3, psi \in {"laplacian", "l1", "l2"}, beta \in {"short", "one", "long"}, data \in {"alternate", "jump", "drift", "chain"}, phi \in {"given", "default", "call", "const"}, ker \in {"learn", "given", "call", "const"}, hist \in BOOLEAN :
        /\ (k = 3 => T >= 4) /\ (k = 2 => T > 2) /\ (m = "ISING" => psi # "l2" /\ T < 4 /\ data # "chain")
        /\ (ker # "learn" => k = 0 /\ data # "chain") /\ (ker \in {"call", "const"} => m = "LTGL") /\ (T = 5 => data = "chain" /\ k \in 2..3) /\ (data = "chain" => T > 3 /\ k > 1)
        /\ (phi # "given" => m = "LTGL") /\ (phi \in {"call", "const"} => ker # "learn")
        /\ s = [kind |-> "sim", model |-> m, T |-> T, k |-> k, psi |-> psi, beta |-> beta, data |-> data, ker |-> ker, phi |-> phi, hist |-> hist]
Step == \E m \in {"TGL", "LTGL", "ISING"}, T \in 3..4, k \in 2..3, psi \in {"laplacian", "l1", "l2"}, start \in {"random", "chain"} :
         /\ (k = 3 => T = 4) /\ (m = "ISING" => T = 3 /\ psi # "l2" /\ start = "random") /\ s = [kind |-> "step", model |-> m, T |-> T, k |-> k, psi |-> psi, start |-> start, beta |-> "one", phi |-> "given", data |-> "drift", ker |-> "learn"]
\* a kernel for another number of times
Bad == \E m \in {"TGL", "LTGL", "LTGLphi", "ISING"}, T \in 2..3, d \in {-1, 1} : s = [kind |-> "bad", model |-> m, T |-> T, d |-> d]
Poi == s = [kind |-> "poi", T |-> 3]
Km == \E n \in 1..6, k \in 1..3, p \in 2..4, dens \in {"sparse", "half", "equal"}, rounds \in {1, 2, 3, 10} : s = [kind |-> "km", rounds |-> rounds, n |-> n, k |-> k, p |-> p, dens |-> dens]
Rep == \E n \in 1..4, p \in 1..4, dens \in {"sparse", "half", "full"} : s = [kind |-> "rep", n |-> n, p |-> p, dens |-> dens]
Init == Step \/ Bad \/ Sim \/ Poi \/ Km \/ Rep
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
