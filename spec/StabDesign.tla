----------------------------- MODULE StabDesign -----------------------------
(***************************************************************************)
(* Selection along the path of candidates as a state machine, exhaustively  *)
(* for every sequence of instabilities 0..V of length up to N and every     *)
(* threshold: the running maximum is computed candidate by candidate.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS N, V
VARIABLES thr, raw, mono, best
vars == <<thr, raw, mono, best>>
None == 0
Max(a, b) == IF a > b THEN a ELSE b
Init == thr \in 0..V /\ raw = <<>> /\ mono = <<>> /\ best = None
Candidate(v) ==
  /\ Len(raw) < N
  /\ raw' = Append(raw, v)
  /\ mono' = Append(mono, IF mono = <<>> THEN v ELSE Max(mono[Len(mono)], v))
  /\ best' = LET m == mono'[Len(mono')] IN
             IF m > thr THEN best ELSE IF best = None \/ m > mono[best] THEN Len(mono') ELSE best
  /\ UNCHANGED thr
Next == \E v \in 0..V : Candidate(v)
Spec == Init /\ [][Next]_vars
Selected == IF best = None THEN 1 ELSE best
TypeOK == Len(raw) = Len(mono) /\ best \in 0..Len(raw)
Monotone == \A i, j \in 1..Len(mono) : i <= j => mono[i] <= mono[j]
\* neither the selected candidate nor any sparser one is unstable
SelectedStable == (raw # <<>> /\ raw[1] <= thr) => \A i \in 1..Selected : raw[i] <= thr
\* every stable candidate is no more unstable than the selected one
SelectedLargest == (raw # <<>> /\ raw[1] <= thr) => \A i \in 1..Len(mono) : mono[i] <= thr => mono[i] <= mono[Selected]
NoneMeansSparsest == (raw # <<>> /\ raw[1] > thr) => best = None
=============================================================================
