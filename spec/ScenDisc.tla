----------------------------- MODULE ScenDisc -----------------------------
(* Ising, Poisson and multi-class synthetic data.                           *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Reps == 1..(IF Env("VP_TIER") = "thorough" THEN 6 ELSE 2)
Init == \/ \E f \in {"ising", "poisson"}, g \in {"erdos-renyi", "scale-free", "small-world", "other"}, T \in {1, 2, 5}, ax \in {"first", "last"}, ch \in {1, 3}, n \in {1, 4} :
             s = [fn |-> f, graph |-> g, T |-> T, ax |-> ax, change |-> ch, n |-> n, kind |-> "dataset", rep |-> 1]
        \/ \E g \in {"scale-free", "erdos-renyi"}, T \in {1, 2, 4}, n \in {1, 5}, k \in {"gaussian", "ising", "poisson", "all"}, r \in Reps :
             s = [fn |-> "multi", graph |-> g, T |-> T, ax |-> "first", change |-> 1, n |-> n, kind |-> k, rep |-> r]
        \/ \E f \in {"energy", "pplus", "bracket"}, k \in {"pm1", "zo"}, g \in {"weighted", "sign", "empty"}, r \in 1..4 :
             s = [fn |-> f, graph |-> g, T |-> 1, ax |-> "first", change |-> 1, n |-> 1, kind |-> k, rep |-> r]
        \/ \E m \in {"MH", "CFTP", "DIRECT", "constrained"}, k \in {"pm1", "zo"}, g \in {"weighted", "empty"}, r \in Reps :
             s = [fn |-> "sampler", graph |-> g, T |-> 1, ax |-> m, change |-> 1, n |-> 1, kind |-> k, rep |-> r]
        \/ \E m \in {"CFTP", "DIRECT"}, k \in {"pm1", "zo"}, r \in Reps :      \* strong couplings, one sweep per round of coupling from the past
             s = [fn |-> "sampler", graph |-> "strong", T |-> 1, ax |-> m, change |-> 1, n |-> 1, kind |-> k, rep |-> r]
        \/ \E k \in {"LPGM", "Gibbs"}, g \in {"empty", "some", "full"}, r \in Reps :
             s = [fn |-> "counts", graph |-> g, T |-> 1, ax |-> "first", change |-> 1, n |-> 1, kind |-> k, rep |-> r]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
