---------------------------- MODULE ScenControl ----------------------------
(* One solver, one problem, one control changed.                           *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Psi == {"laplacian", "l1", "l2", "linf"}
Init == \E m \in {"GL", "LGL", "IC", "TGL", "KTGL", "LTGL", "KLTGL", "LTMD"},
           ctl \in {"rho_lo", "rho_hi", "over", "under", "init_zero", "init_array", "rule_never", "rule_eager", "verbose",
                    "no_history", "no_niter", "bare", "no_obj"} :
          LET single == m \in {"GL", "LGL", "IC"}
              lat == m \in {"LTGL", "KLTGL", "LTMD"}
          IN \E t \in (IF single THEN {1} ELSE {2, 3}),
                p \in (IF single THEN {"l1"} ELSE Psi), h \in (IF lat THEN Psi ELSE {"l1"}),
                n \in (IF single \/ m = "LTMD" THEN {"none"} ELSE {"none", "uneven"}) :
              /\ ctl \in {"over", "under"} => m = "GL"
              /\ ctl \in {"init_zero", "init_array"} => m \notin {"IC", "LTMD"}
              /\ s = [model |-> m, T |-> t, psi |-> p, phi |-> h, n |-> n, ctl |-> ctl, d |-> IF t = 2 THEN 3 ELSE 2]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
