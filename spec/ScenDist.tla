----------------------------- MODULE ScenDist -----------------------------
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
\* nu: how far the degrees of freedom lie from p; sc: shape of the scale matrix
Wi == \E p \in 1..5, dist \in {"w", "iw"}, nu \in {"low", "edge", "mid", "frac", "high"}, sc \in {"eye", "diag", "full", "tiny", "big"} :
        s = [kind |-> "wi", p |-> p, dist |-> dist, nu |-> nu, sc |-> sc]
Niw == \E p \in 1..4, nu \in {"low", "mid", "frac", "high"}, sc \in {"eye", "full", "big"}, kappa \in {"tenth", "one", "seven"}, mu \in {"zero", "far"}, n \in {1, 2, 5, 12} :
        s = [kind |-> "niw", p |-> p, nu |-> nu, sc |-> sc, kappa |-> kappa, mu |-> mu, n |-> n]
Samp == \E p \in 1..4, dist \in {"w", "iw", "niw"}, nu \in {"mid", "frac", "high"}, sc \in {"eye", "full"}, n \in {1, 2, 1500}, calls \in {"one", "many"} :
        (dist = "niw" => p > 1) /\ (calls = "many" => n > 2) /\ s = [kind |-> "samp", p |-> p, calls |-> calls, dist |-> dist, nu |-> nu, sc |-> sc, n |-> n]
Uni == \E fn \in {"pdf", "logpdf", "stat"}, m \in {"neg", "zero", "pos"}, v \in {"small", "one", "large"} : s = [kind |-> "uni", p |-> 1, fn |-> fn, m |-> m, v |-> v]
Frob == \E p \in 1..4, T \in 1..3, v \in {"small", "one", "large"} : s = [kind |-> "frob", p |-> p, T |-> T, v |-> v]
Mvn == \E p \in 1..4, T \in 1..4, n \in {1, 2, 6}, sc \in {"eye", "full", "big"} : s = [kind |-> "mvn", p |-> p, T |-> T, n |-> n, sc |-> sc]
Init == Wi \/ Niw \/ Samp \/ Uni \/ Frob \/ Mvn
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
