----------------------------- MODULE StructConf -----------------------------
(***************************************************************************)
(* Structure recovery measures.  An entry is an edge iff it is not zero    *)
(* (after the optional threshold on the prediction); counts are taken over *)
(* all entries of the (batch of) matrices, without the diagonals on        *)
(* request.  mcc and average precision look at every pair of nodes once.   *)
(***************************************************************************)
EXTENDS TraceBase
NZ(x) == RLt(R(0), Abs(x))
Ratio(a, b, dflt) == IF b = 0 THEN R(dflt) ELSE RDiv(R(a), R(b))
\* true, pred: sequences of matrices
Cells(A, nod) == {x \in (1..Len(A)) \X (1..Len(A[1])) \X (1..Len(A[1])) : ~nod \/ x[2] # x[3]}
At(A, x) == A[x[1]][x[2]][x[3]]
Thr(P, on, eps) == IF ~on THEN P
                   ELSE [t \in 1..Len(P) |-> [i \in 1..Len(P[1]) |-> [j \in 1..Len(P[1]) |-> IF RLt(Abs(P[t][i][j]), eps) THEN R(0) ELSE P[t][i][j]]]]
Measures(T, P0, nod, thr, eps) ==
  LET P == Force(Thr(P0, thr, eps))
      C == Cells(T, nod)
      N(S) == Cardinality(S)
      tp == N({x \in C : NZ(At(T, x)) /\ NZ(At(P, x))})
      fn == N({x \in C : NZ(At(T, x)) /\ ~NZ(At(P, x))})
      fp == N({x \in C : ~NZ(At(T, x)) /\ NZ(At(P, x))})
      tn == N(C) - tp - fn - fp
      precision == Ratio(tp, tp + fp, 0)
      recall == Ratio(tp, tp + fn, 0)
      fall == Ratio(fp, fp + tn, 1)
      spec == IF fp + tn = 0 THEN R(0) ELSE Ratio(tn, fp + tn, 0)
      fom == Ratio(fn, fn + tn, 0)
      miss == Sub(R(1), recall)
      plr == IF NZ(fall) THEN RDiv(recall, fall) ELSE R(0)
      nlr == IF NZ(spec) THEN RDiv(miss, spec) ELSE R(0)
      \* pairs of nodes
      U == {x \in C : x[2] < x[3]}
      utp == N({x \in U : NZ(At(T, x)) /\ NZ(At(P, x))})
      ufn == N({x \in U : NZ(At(T, x)) /\ ~NZ(At(P, x))})
      ufp == N({x \in U : ~NZ(At(T, x)) /\ NZ(At(P, x))})
      utn == N(U) - utp - ufn - ufp
      den == (utp + ufp) * (utp + ufn) * (utn + ufp) * (utn + ufn)
      mcc == IF den = 0 THEN R(0) ELSE RDiv(R(utp * utn - ufp * ufn), RSqrt(R(den)))
      Pos == {x \in U : NZ(At(T, x))}
      \* average precision: over the distinct scores, precision at the score times the recall gained there
      Scores == {Abs(At(P, x)) : x \in U}
      Ap == IF Pos = {} THEN R(0)
            ELSE RSumSet(LAMBDA v :
                   LET sel == {x \in U : RLe(v, Abs(At(P, x)))}
                       gain == N({x \in Pos : Abs(At(P, x)) = v})
                   IN Mul(RDiv(R(N(sel \cap Pos)), R(N(sel))), RDiv(R(gain), R(N(Pos)))), Scores)
  IN [tp |-> R(tp), tn |-> R(tn), fp |-> R(fp), fn |-> R(fn), precision |-> precision, recall |-> recall,
      f1 |-> IF tp = 0 THEN R(0) ELSE RDiv(R(2 * tp), R(2 * tp + fp + fn)),
      accuracy |-> Ratio(tp + tn, N(C), 0), prevalence |-> Ratio(tp + fn, N(C), 0),
      false_omission_rate |-> fom, fdr |-> Sub(R(1), precision), npv |-> Sub(R(1), fom),
      miss_rate |-> miss, fall_out |-> fall, specificity |-> spec, plr |-> plr, nlr |-> nlr,
      dor |-> IF NZ(nlr) THEN RDiv(plr, nlr) ELSE R(0),
      balanced_accuracy |-> RDiv(Add(recall, spec), R(2)), average_precision |-> Ap, mcc |-> mcc]
Diffs(got, want, tol) == {k \in DOMAIN want : ~(k \in DOMAIN got /\ Close(got[k], want[k], tol, tol))}
One(c) ==
  LET q == c.inp
      w == Measures(q.T, q.P, q.nod, q.thr, q.eps)
      bad == Diffs(c.out.m, w, R("1e-9"))
  IN << <<"measures", bad = {}, <<bad, [k \in bad |-> w[k]], c.out.m>>>>,
        <<"no-other-keys", DOMAIN c.out.m = DOMAIN w, "">>,
        <<"inputs-untouched", c.out.clean, "">> >>
\* mean and standard deviation over several predictions (reported as text)
Mean(c) ==
  LET q == c.inp
      n == Len(q.Ps)
      ws == Force([k \in 1..n |-> Measures(q.T, q.Ps[k], TRUE, FALSE, R(0))])
      mu(f) == RDiv(Sum([k \in 1..n |-> ws[k][f]]), R(n))
      sd(f) == RSqrt(RDiv(Sum([k \in 1..n |-> Mul(Sub(ws[k][f], mu(f)), Sub(ws[k][f], mu(f)))]), R(n)))
      F == DOMAIN ws[1]
      bad == {f \in F : ~(f \in DOMAIN c.out.mu /\ Close(c.out.mu[f], mu(f), R("1e-9"), R("1e-9")) /\ Close(c.out.sd[f], sd(f), R("1e-7"), R("1e-7")))}
  IN << <<"mean-measures", bad = {}, bad>> >>
Clauses(c) == IF c.err # "" THEN <<NoErr(c)>> ELSE IF c.inp.fam = "mean" THEN Mean(c) ELSE One(c)
Init == JInit
Next == JNext(Clauses)
=============================================================================
