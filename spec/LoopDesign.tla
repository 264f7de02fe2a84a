----------------------------- MODULE LoopDesign -----------------------------
(***************************************************************************)
(* Control skeleton of every iterative solver in regain: which reports a   *)
(* run can make.  The residual tests are environment choices.  Checked     *)
(* exhaustively for every budget up to MaxBudget.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT MaxBudget
VARIABLES budget, k, hist, phase, warned
vars == <<budget, k, hist, phase, warned>>
Init == /\ budget \in 1..MaxBudget /\ k = 0 /\ hist = <<>> /\ phase = "run" /\ warned = FALSE
Iterate(sat, hit) ==
  /\ phase = "run" /\ k < budget
  /\ k' = k + 1
  /\ hist' = Append(hist, [sat |-> sat, hit |-> hit])
  /\ phase' = IF sat \/ hit THEN "done" ELSE "run"
  /\ UNCHANGED <<budget, warned>>
Exhaust == /\ phase = "run" /\ k = budget /\ phase' = "done" /\ warned' = TRUE /\ UNCHANGED <<budget, k, hist>>
Next == (\E sat, hit \in BOOLEAN : Iterate(sat, hit)) \/ Exhaust
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ok(i) == hist[i].sat \/ hist[i].hit
CountsIterations == k = Len(hist) /\ k <= budget
StopsAtFirst == \A i \in 1..(Len(hist) - 1) : ~ok(i)
WarnsIff == phase = "done" => (warned <=> ~ok(Len(hist)))
EndsOk == phase = "done" => (ok(Len(hist)) \/ k = budget)
Terminates == <>(phase = "done")
=============================================================================
