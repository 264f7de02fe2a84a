----------------------------- MODULE ScenUtil -----------------------------
(* Calls of the helper functions, by function and class of argument.       *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Kinds == [flatten |-> {"flat", "nested", "deep", "array", "empty"},
          upper |-> {"d1", "d2", "d3", "d5"},
          compose |-> {"none", "one", "two", "many"},
          to2d |-> {"equal", "ragged", "one", "list"},
          rank |-> {"same", "low", "mixed"},
          normalise |-> {"pd", "scaled"},
          posdef |-> {"pd", "psd", "indef", "neg", "batch_pd", "batch_bad"},
          ensure |-> {"pd", "indef", "zero", "batch"},
          threshold |-> {"none", "min", "max", "both", "newval"},
          topn |-> {"one", "some", "all", "neg"},
          pickle |-> {"noext", "ext", "other"},
          network |-> {"csv", "tsv", "delim", "filldiag", "threshold", "upper"},
          diag |-> {"get2", "get3", "fill2", "fill3", "fillvec", "create1", "create2"},
          ending |-> {"none", "has", "second", "list"},
          entropy |-> {"counts", "zeros"},
          stdout |-> {"plain", "raise", "nested"},
          logdet |-> {"one", "batch", "negative", "singular"},
          gamma |-> {"keep", "halve", "floor", "zero"},
          topidx |-> {"one", "some", "all"},
          topics |-> {"docs", "quiet"},
          logger |-> {"log", "noext", "quiet", "twice"},
          loader |-> {"food", "foodgroups", "finance", "sectors"},
          heuristic |-> {"two", "three"}]
Init == \E f \in DOMAIN Kinds : \E k \in Kinds[f], n \in 1..(IF f = "loader" THEN 1 ELSE IF Env("VP_TIER") = "thorough" THEN 24 ELSE 6) : s = [fn |-> f, kind |-> k, n |-> n]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
