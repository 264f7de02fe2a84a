----------------------------- MODULE ScenStab -----------------------------
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
\* path: how unstable the candidates are along the path
Fit == \E est \in {"static", "temporal", "glasso", "tgl"}, path \in {"rising", "stable", "unstable", "dip", "flat", "edge"}, grid \in {"one", "two", "lists"},
           size \in {"default", "given", "odd"}, mode \in {"stars", "gstars"}, refit \in {"yes", "no", "rule"}, again \in BOOLEAN, train \in BOOLEAN, scoring \in {"own", "call"}, jobs \in {1, 2} :
          /\ (est \in {"glasso", "tgl"} => path = "rising")
          /\ (grid = "lists" => est \in {"static", "temporal"})
          /\ s = [kind |-> "fit", est |-> est, path |-> path, grid |-> grid, size |-> size, mode |-> mode, refit |-> refit, again |-> again, train |-> train, scoring |-> scoring, jobs |-> jobs]
Fn == \E fn \in {"global_instability", "upper_bound", "graphlet_instability"}, T \in 0..3, p \in 2..5, m \in {1, 2, 3, 7}, dens \in {"none", "mixed", "same", "full", "flip"} :
          /\ (fn = "graphlet_instability" => m > 1)
          /\ s = [kind |-> "fn", fn |-> fn, T |-> T, p |-> p, m |-> m, dens |-> dens]
Init == Fit \/ Fn
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
