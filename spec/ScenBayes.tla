----------------------------- MODULE ScenBayes -----------------------------
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Init == \E est \in {"TGL", "TGLc", "KTGL", "LTGL", "KLTGL", "FB", "stub", "stubcov", "stubloc", "pre"}, labels \in {"int", "gap", "neg", "str"}, order \in {"sorted", "shuffled"},
           prior \in {"freq", "given", "list", "extreme"}, pd \in {"asis", "ensure-pd", "ensure-indef"}, T \in 2..4, d \in 2..4, bal \in BOOLEAN, again \in BOOLEAN :
          /\ (pd = "ensure-indef" => est \in {"stub", "stubcov", "stubloc", "pre"})
          /\ (est \in {"TGL", "TGLc", "KTGL", "LTGL", "KLTGL", "FB"} => d > 2)
          /\ s = [est |-> est, labels |-> labels, order |-> order, prior |-> prior, pd |-> pd, T |-> T, d |-> d, bal |-> bal, again |-> again]
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
