------------------------------ MODULE ScenAdmm ------------------------------
(* Runs of the iterative solvers: model, coupling, controls and budget.    *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Psi == {"laplacian", "l1", "l2", "linf", "node"}
Init == \E m \in {"GL", "LGL", "IC", "TGL", "KTGL", "LTGL", "KLTGL", "LTMD"},
           rho \in {"half", "one", "three"}, rule \in {"default", "never", "eager"}, budget \in {"one", "short", "long", "loose"},
           init \in {"empirical", "zero", "array"}, co \in BOOLEAN, via \in {"func", "class"} :
          LET single == m \in {"GL", "LGL", "IC"}
              lat == m \in {"LTGL", "KLTGL", "LTMD"}
          IN \E t \in (IF single THEN {1} ELSE IF lat THEN {2, 3} ELSE {1, 2, 3, 4}),
                p \in (IF single THEN {"l1"} ELSE Psi), h \in (IF lat THEN Psi ELSE {"l1"}),
                n \in (IF single \/ m = "LTMD" THEN {"none"} ELSE {"none", "uneven"}),
                o \in (IF m = "GL" THEN {"one", "more", "less"} ELSE {"one"}),
                st \in (IF m \in {"TGL", "KTGL"} /\ co /\ budget = "long" THEN BOOLEAN ELSE {FALSE}) :
              /\ via = "class" => m \notin {"IC", "LTMD"} /\ (st => m = "TGL") /\ n = (IF single THEN "none" ELSE "uneven")
              /\ st => p # "node"
              /\ m \in {"IC", "LTMD"} => init = "zero"
              /\ s = [model |-> m, via |-> via, T |-> t, psi |-> p, phi |-> h, n |-> n, over |-> o, stop |-> st, rho |-> rho, rule |-> rule,
                      budget |-> budget, init |-> init, compobj |-> co, d |-> IF rho = "one" THEN 3 ELSE 2]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
