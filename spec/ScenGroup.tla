----------------------------- MODULE ScenGroup -----------------------------
(***************************************************************************)
(* Histories of data transformations whose effect on a fitted model is     *)
(* known: reorder samples, rename the time labels keeping their order,     *)
(* reorder the variables, move every group by a constant, repeat every     *)
(* sample.  Every history of length 1..MaxLen over the allowed steps.      *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC
VARIABLES est, cent, hist, len
Steps == {"samples", "labels", "features", "shift", "dup", "strlabels", "block"}
MaxLen == 3
Init == est \in {"GL", "LGL", "TGL", "LTGL", "KTGL", "KLTGL", "FB"} /\ cent \in BOOLEAN /\ hist = <<>> /\ len = 0
Legal(st) == /\ (st = "shift" => ~cent)
             /\ (st \in {"labels", "strlabels", "block"} => est \notin {"GL", "LGL"})
             /\ (st = "dup" => \A i \in 1..Len(hist) : hist[i] # "dup")
             /\ (st \in {"labels", "strlabels"} => \A i \in 1..Len(hist) : hist[i] # "strlabels")
             /\ (hist # <<>> => hist[Len(hist)] # st)
Next == /\ len < MaxLen
        /\ \E st \in Steps : Legal(st) /\ hist' = Append(hist, st)
        /\ len' = len + 1 /\ UNCHANGED <<est, cent>>
Emit == len = 0 \/ EmitJson(Env("VP_OUT"), [est |-> est, cent |-> cent, hist |-> hist])
=============================================================================
