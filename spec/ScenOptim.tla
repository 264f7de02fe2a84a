----------------------------- MODULE ScenOptim -----------------------------
(* Scenario space of the optimality properties: which model, penalties,    *)
(* shape of data, number of times/variables, sample weights, parameters.   *)
EXTENDS Num, Integers, Sequences, TLC

Model == Env("VP_MODEL")

Psi == {"laplacian", "l1", "l2", "linf", "node"}
Kinds == {"corr", "scaled", "jump", "same", "diag"}
Ls == {"tiny", "small", "mid", "large"}

Ls0 == Ls \cup {"zero"}
Via == {"func", "class", "centered"}     \* covariances, labelled samples, labelled samples with assume_centered

Space ==
  CASE Model = "GL" -> [d : {2, 3, 4, 6, 9}, kind : {"corr", "scaled", "diag", "singular"}, alpha : Ls \cup {"huge"}, via : Via]
    [] Model = "TGL" -> {x \in [psi : Psi, T : {1, 2, 3, 5, 9}, d : {2, 3, 4, 6, 9}, kind : Kinds, alpha : {"tiny", "small", "mid", "huge"}, beta : Ls0,
                         n : {"none", "equal", "uneven", "lopsided"}, via : Via] : x.T * x.d <= (IF x.psi = "node" THEN 10 ELSE 18) /\ (x.psi = "node" => x.alpha # "huge" /\ x.n # "lopsided")}
    [] Model = "LGL" -> [d : {2, 3, 4, 6}, kind : {"corr", "scaled", "jump"}, alpha : {"small", "mid"}, tau : {"small", "mid", "large", "near"},
                         via : Via]
    [] Model = "LTGL" -> {x \in [psi : Psi, phi : Psi, T : {1, 2, 3, 4, 7}, d : {2, 3, 5}, kind : {"corr", "jump", "same"}, alpha : {"small", "mid"},
                          tau : {"mid", "large", "near"}, beta : {"zero", "small", "mid"}, eta : {"zero", "small", "mid"},
                          n : {"none", "uneven", "lopsided"}, via : Via] : x.T * x.d <= (IF "node" \in {x.psi, x.phi} THEN 9 ELSE 14) /\ ("node" \in {x.psi, x.phi} => x.n # "lopsided")}
    [] Model = "KTGL" -> {x \in [psi : Psi, T : {1, 2, 3, 4, 6, 9}, d : {2, 3, 5}, kind : {"corr", "jump", "scaled"}, alpha : {"tiny", "small", "mid"},
                          ker : {"matrix", "tridiag", "rbf", "const", "none", "autorbf", "autoconst"}, n : {"none", "uneven", "lopsided"}, via : Via] :
                          (x.ker \in {"rbf", "const", "autorbf", "autoconst"} => x.via # "func") /\ x.T * x.d <= (IF x.psi = "node" THEN 9 ELSE IF x.T = 9 THEN 18 ELSE 12) /\ (x.psi = "node" => x.n # "lopsided")}
    [] Model = "KLTGL" -> {x \in [psi : Psi, phi : Psi, T : {1, 2, 3, 5, 8}, d : {2, 3, 5}, kind : {"corr", "jump"}, alpha : {"small", "mid"},
                          tau : {"mid", "large", "near"},
                          ker : {"matrix", "tridiag", "rbf", "const", "none"}, ker2 : {"matrix", "tridiag", "rbf", "const", "none"}, n : {"none", "uneven"}, via : Via] :
                          ({x.ker, x.ker2} \cap {"rbf", "const"} # {} => x.via # "func") /\ x.T * x.d <= (IF "node" \in {x.psi, x.phi} THEN 6 ELSE IF x.T = 8 THEN 16 ELSE 10)}
    [] Model = "LTMD" -> {x \in [psi : Psi, phi : Psi, T : {1, 2, 3, 4, 6}, d : {2, 3, 4, 6}, kind : {"corr", "jump", "scaled"}, alpha : {"small", "mid"},
                          tau : {"small", "mid", "near"}, beta : Ls0 \ {"tiny"}, eta : {"zero", "small", "mid"}, axis : {"first", "last", "func"}] : x.T * x.d <= (IF "node" \in {x.psi, x.phi} THEN 9 ELSE 16)}
    [] Model = "IC" -> {x \in [d : {2, 3, 4, 5, 8}, kind : {"corr", "jump", "scaled", "diag"}, alpha : Ls, tau : Ls \cup {"near"}] : x.d = 8 => "tiny" \notin {x.alpha, x.tau}}

\* "near": a trace penalty just below the l1 penalty, so that the two parts trade places slowly
VARIABLE s
Init == s \in Space
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
