----------------------------- MODULE ScenCrit -----------------------------
(* Information criteria of (batches of) precision matrices.                *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Init == \E fn \in {"ll", "ll_t", "BIC", "EBIC", "EBIC_m", "BIC_t", "EBIC_t", "EBIC_m_t"},
           pat \in {"diag", "sparse", "full", "neg"}, def \in {"pd", "indefinite", "singular"}, d \in 2..5, T \in 1..3,
           args \in {"default", "n", "eps", "both"}, form \in {"array", "list"} :
          /\ fn \in {"BIC", "EBIC", "EBIC_m"} => T = 1
          /\ fn \in {"ll", "ll_t", "BIC", "BIC_t"} => args = "default"
          /\ form = "list" => fn = "BIC_t"
          /\ def # "pd" => pat = "sparse"
          /\ s = [fn |-> fn, pat |-> pat, def |-> def, d |-> d, T |-> T, args |-> args, form |-> form]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
