------------------------------- MODULE ScenFB -------------------------------
EXTENDS Num, Integers, Sequences, TLC
VARIABLE s
Space == {x \in [choose : {"gamma", "lamda", "fixed", "both"}, crit : {"a", "b", "c"}, pen : {"l1", "l2t", "laplacian"},
                 T : {2, 3, 4}, d : {2, 3}, n : {"none", "equal", "uneven"}, via : {"func", "class"},
                 alpha : {"small", "mid"}, beta : {"small", "mid"}, delta : {"half", "quarter"}, init : {"empirical", "array"}, eps : {"none", "tiny", "big"},
                 extra : {"plain", "stop", "max"}] :
            /\ (x.choose # "lamda" => x.crit = "b")
            /\ (x.via = "class" => x.n # "none")
            /\ (x.extra = "max" => x.via = "class")
            /\ (x.choose = "fixed" => x.pen # "l2t")}
Init == s \in Space
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
