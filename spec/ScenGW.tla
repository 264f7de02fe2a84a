----------------------------- MODULE ScenGW -----------------------------
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Ugs == \E p \in 2..4 : s = [kind |-> "ugs", p |-> p]
Mb == \E p \in 2..5, m \in 1..4, boolean \in BOOLEAN, uniq \in BOOLEAN, near \in BOOLEAN, rep \in 1..2 :
        s = [kind |-> "mb", p |-> p, m |-> m, boolean |-> boolean, unique |-> uniq, near |-> near, rep |-> rep]
Sb == \E p \in 2..4, corr \in {"iid", "strong", "shifted"}, al \in {"default", "given"}, rep \in 1..2 : s = [kind |-> "sb", p |-> p, corr |-> corr, al |-> al, rep |-> rep]
Ps == \E p \in 2..5, g \in {"empty", "chain", "full", "random", "cycle"}, sc \in {"unit", "scaled", "near"} : s = [kind |-> "ps", p |-> p, g |-> g, sc |-> sc]
Gw == \E p \in 2..4, g \in {"empty", "chain", "full", "random", "cycle"}, mode \in {"covsel", "gl"}, score \in {"bic", "laplace", "diaglaplace"}, prior \in {"default", "eye", "diag", "full"}, n \in {"few", "many"} :
        s = [kind |-> "gw", p |-> p, g |-> g, mode |-> mode, score |-> score, prior |-> prior, n |-> n]
Bgl == \E p \in 2..4, mode \in {"covsel", "gl"}, score \in {"bic", "laplace", "diaglaplace"}, top \in 1..2, alphas \in {"two", "one"}, centered \in BOOLEAN, via \in {"cls", "fn"} :
        s = [kind |-> "bgl", p |-> p, mode |-> mode, score |-> score, top |-> top, alphas |-> alphas, centered |-> centered, via |-> via]
H == \E p \in 1..4, fn \in {"h", "first", "first2", "second2"}, g \in {"empty", "random", "full"} : s = [kind |-> "h", p |-> p, fn |-> fn, g |-> g]
Init == Ugs \/ Mb \/ Sb \/ Ps \/ Gw \/ Bgl \/ H
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
