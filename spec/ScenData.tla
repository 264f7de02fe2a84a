----------------------------- MODULE ScenData -----------------------------
(* Calls of make_dataset for the Gaussian distribution.                     *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Plain == {"sin", "sinnorm", "sinsquare", "fixed_sparsity", "gp", "fede", "ma", "mak", "my", "sklearn", "sincos", "func", "my-direct", "mys-direct"}
Init == \/ \E ut \in {"l1", "l2"}, ue \in {"l1", "l2", "yuan", "fixed"}, T \in {1, 2, 4, 7}, h \in 0..3, ax \in {"first", "last"},
              ks \in BOOLEAN, nm \in BOOLEAN, pr \in BOOLEAN, dg \in {1, 2, 3}, ep \in {"small", "mid", "large", "vast"}, big \in BOOLEAN :
           s = [mode |-> "none", ut |-> ut, ue |-> ue, T |-> T, h |-> h, ax |-> ax, keep |-> ks, norm |-> nm, prop |-> pr, deg |-> dg, eps |-> ep, big |-> big]
        \/ \E m \in Plain, T \in {1, 2, 4, 7}, h \in 0..3, ax \in {"first", "last"}, ep \in {"small", "mid"}, big \in BOOLEAN :
           /\ m = "sklearn" => h > 0
           /\ m = "sincos" => T = 7
           /\ m = "mys-direct" => h > 0
           /\ m \in {"my-direct", "mys-direct"} => ax = "first" /\ ep = "mid"
           /\ s = [mode |-> m, ut |-> "l2", ue |-> "l2", T |-> T, h |-> h, ax |-> ax, keep |-> FALSE, norm |-> FALSE, prop |-> FALSE, deg |-> 2, eps |-> ep, big |-> big]
        \/ \E b \in {"mode", "distribution", "update_theta", "update_ell"} :
           s = [mode |-> b, ut |-> "l2", ue |-> "l2", T |-> 3, h |-> 1, ax |-> "first", keep |-> FALSE, norm |-> FALSE, prop |-> FALSE, deg |-> 2, eps |-> "mid", big |-> FALSE]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
