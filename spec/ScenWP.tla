----------------------------- MODULE ScenWP -----------------------------
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Con == \E p \in 1..4, nu \in 1..5, T \in 1..4 : s = [kind |-> "con", p |-> p, nu |-> nu, T |-> T]
Gp == \E p \in 1..3, T \in 1..4, k \in {"rbf", "eye", "singular"} : s = [kind |-> "gp", p |-> p, T |-> T, k |-> k]
Pred == \E p \in 1..3, nu \in 1..4, T \in 2..5, at \in {"train", "between", "one", "shuffled"} : s = [kind |-> "pred", p |-> p, nu |-> nu, T |-> T, at |-> at]
\* slice step started from the target: prior as a sample or as a factor, whole ellipse or bracket
Ess == \E p \in 1..2, nu \in 1..2, T \in 1..2, c \in {"none", "weak", "strong"}, prior \in {"sample", "chol"}, angle \in {"whole", "bracket"}, start \in {"given", "none"} :
         (prior = "chol" => p * nu * T > 1) /\
         s = [kind |-> "ess", p |-> p, nu |-> nu, T |-> T, c |-> c, prior |-> prior, angle |-> angle, start |-> start]
Essb == \E a \in {"narrow", "wide"}, c \in {"flat", "weak", "strong"} : s = [kind |-> "essb", p |-> 1, a |-> a, c |-> c]
Ell == \E p \in 1..3, c \in {"none", "flat", "weak", "strong"}, var \in {"scalar", "array"}, mean \in {"zero", "one"} : s = [kind |-> "ell", p |-> p, c |-> c, var |-> var, mean |-> mean]
Hyp == \E T \in 1..2, m \in 1..3, g \in {"const", "scale"}, var \in {"small", "large"} : s = [kind |-> "hyp", p |-> 1, T |-> T, m |-> m, g |-> g, var |-> var]
Chain == \E c \in {"none", "weak", "strong"}, g \in {"const", "scale"}, ell \in {"learn", "fixed"} : s = [kind |-> "chain", p |-> 1, c |-> c, g |-> g, ell |-> ell]
Wp == \E p \in 2..4, T \in 2..4, sizes \in {"equal", "unequal"}, ell \in {"learn", "fixed"}, burn \in {"default", "zero", "given"}, kernel \in {"default", "rbf", "periodic"}, centred \in BOOLEAN, labels \in {"ints", "gaps"} :
        s = [kind |-> "wp", p |-> p, T |-> T, sizes |-> sizes, ell |-> ell, burn |-> burn, kernel |-> kernel, centred |-> centred, labels |-> labels]
Init == Con \/ Gp \/ Pred \/ Ess \/ Essb \/ Ell \/ Hyp \/ Chain \/ Wp
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
