----------------------------- MODULE ScenLasso -----------------------------
(* Sparse linear regression problems.                                      *)
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Init == \E f \in {"lasso", "group", "overlap", "latent", "prox", "class", "classifier"},
           shape \in {"tall", "square", "fat"}, lam \in {"tiny", "small", "mid", "big", "huge"},
           gr \in {"singles", "pairs", "mixed", "shuffled", "nested", "one", "partial"},
           opt \in {"default", "rho", "relax", "loose"} :
          /\ f \in {"overlap", "latent", "class", "classifier"} => shape = "tall"
          /\ f = "prox" => shape = "square" /\ opt = "default"
          /\ f = "lasso" => gr = "singles"
          /\ f = "group" => gr \in {"singles", "pairs", "mixed", "shuffled", "one"}
          /\ opt = "relax" => f \in {"lasso", "group"}
          /\ opt = "loose" => f \in {"lasso", "group", "overlap"}
          /\ opt = "rho" => f \in {"lasso", "group", "overlap", "class"}
          /\ gr \in {"nested", "partial"} => f \in {"overlap", "latent", "prox", "class"}
          /\ \E b \in (IF f \in {"class", "classifier"} THEN BOOLEAN ELSE {TRUE}),
                mode \in (IF f \in {"class", "classifier"} THEN {"admm", "paspal"} ELSE {"-"}),
                tg \in (IF f = "class" THEN {1, 2} ELSE IF f = "classifier" THEN {2, 3} ELSE {1}) :
               /\ mode = "paspal" => opt = "default"
               /\ \E jobs \in (IF f \in {"class", "classifier"} THEN {1, 2} ELSE {1}), norm \in (IF f \in {"class", "classifier"} /\ b THEN BOOLEAN ELSE {FALSE}) :
                  s = [fn |-> f, shape |-> shape, lam |-> lam, gr |-> gr, opt |-> opt, icpt |-> b, mode |-> mode, targets |-> tg, jobs |-> jobs, norm |-> norm]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
