------------------------------- MODULE Input -------------------------------
(***************************************************************************)
(* Which inputs the estimators admit.  An input is described by the fault   *)
(* it has, or by the way it is represented when it has none.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
Static == {"GL", "LGL"}
Temporal == {"TGL", "LTGL", "KTGL", "KLTGL", "SimTGL", "SimLTGL", "FB"}
Glm == {"gauss", "poisson", "ising"}
GlmT == {"tising", "tpoisson", "simising"}
Linear == {"GLO", "GLOC"}
Ests == Static \cup Temporal \cup Glm \cup GlmT \cup Linear \cup {"LTMD", "DA"}
Labelled == Temporal \cup GlmT \cup Linear \cup {"DA"}
\* faults of the sample matrix that every estimator refuses
XFaults == {"nan", "inf", "neginf", "flat", "deep", "text", "empty"}
YFaults == {"long", "short", "none", "ynan"}
Faults(e) ==
  XFaults
  \cup (IF e \in Labelled THEN YFaults ELSE {})
  \cup (IF e \in Labelled \ {"GLO"} THEN {"twocolumns"} ELSE {})
  \cup (IF e \in Static \cup Temporal \cup GlmT \cup {"DA", "LTMD"} THEN {"onefeature"} ELSE {})
  \cup (IF e \in Static THEN {"onesample"} ELSE {})
  \cup (IF e \in {"DA"} THEN {"oneclass", "singleton"} ELSE {})
  \cup (IF e \in {"tising", "simising"} THEN {"threevalues", "onevalue"} ELSE {})
  \cup (IF e = "tpoisson" THEN {"negative"} ELSE {})
\* options that have no meaning
Options(e) ==
     (IF e \in {"TGL", "LTGL", "KTGL", "KLTGL", "LTMD", "tising", "tpoisson"} THEN {"psi"} ELSE {})
  \cup (IF e \in {"LTGL", "KLTGL", "LTMD"} THEN {"phi"} ELSE {})
  \cup (IF e \in {"KTGL", "tising", "tpoisson"} THEN {"kernel-small", "kernel-large", "auto-without-function"} ELSE {})
  \cup (IF e = "KLTGL" THEN {"kernel_psi-small", "kernel_psi-large", "kernel_phi-small", "kernel_phi-large"} ELSE {})
  \cup (IF e = "FB" THEN {"choose"} ELSE {})
  \cup (IF e \in {"poisson", "ising", "GLO"} THEN {"mode"} ELSE {})
Forms(e) == {"list", "fortran", "readonly", "strided", "float32"}
  \cup (IF e # "LTMD" THEN {"frame"} ELSE {})
  \cup (IF e \in {"poisson", "ising", "tising", "tpoisson", "simising"} THEN {"int"} ELSE {})
  \cup (IF e = "LTMD" THEN {"matrices", "timelast"} ELSE {})
=============================================================================
