------------------------------- MODULE Optim -------------------------------
(* What a converged answer of one of regain's solvers has to be.           *)
EXTENDS RefSolve, TraceBase

\* empirical covariance of the samples carrying label l
RowsOf(X, y, l) == LET idx == SelectSeq([k \in 1..Len(X) |-> k], LAMBDA k : y[k] = l)
                   IN [k \in 1..Len(idx) |-> X[idx[k]]]
RECURSIVE ColMeanAcc(_, _, _)
ColMeanAcc(rows, k, acc) == IF k > Len(rows) THEN acc ELSE ColMeanAcc(rows, k + 1, Add(acc, rows[k]))
ColMean(rows) == EDiv(ColMeanAcc(rows, 1, Mul(R(0), rows[1])), R(Len(rows)))
EmpCov(rows, centered) ==
  LET m == ColMean(rows)
      Z == Force(IF centered THEN rows ELSE [k \in 1..Len(rows) |-> Sub(rows[k], m)])
  IN EDiv(MMul(MT(Z), Z), R(Len(rows)))

RECURSIVE SortedLabels(_)
SortedLabels(S) == IF S = {} THEN <<>>
                   ELSE LET m == CHOOSE m \in S : \A n \in S : m <= n IN <<m>> \o SortedLabels(S \ {m})
LabelsOf(y) == SortedLabels({y[k] : k \in 1..Len(y)})

CovsOf(q) == IF Has(q, "X")
             THEN LET ls == IF Has(q, "T") THEN LabelsOf(q.y) ELSE <<0>>
                  IN Force([t \in 1..Len(ls) |-> EmpCov(IF Has(q, "T") THEN RowsOf(q.X, q.y, ls[t]) ELSE q.X, Has(q, "centered"))])
             ELSE q.S

Adjacent(T) == [t \in 1..(T - 1) |-> <<t, t + 1>>]
RECURSIVE AllPairsFrom(_, _, _)
AllPairsFrom(s, t, T) == IF s >= T THEN <<>>
                         ELSE IF t > T THEN AllPairsFrom(s + 1, s + 2, T)
                         ELSE <<<<s, t>>>> \o AllPairsFrom(s, t + 1, T)
AllPairs(T) == AllPairsFrom(1, 2, T)

Rep(v, n) == [k \in 1..n |-> v]

\* weight of the pair (s,t): an explicit matrix, or a kernel function of the time labels
\* (an automatic parameter minimises the coupling over (0, T): these kernels grow with it, so it vanishes)
KerW(q, ker, fun, par, s, t) ==
  IF Has(q, "auto") THEN R(0)
  ELSE IF Has(q, fun)
  THEN LET ls == LabelsOf(q.y)
           dd == R(ls[s] - ls[t])
       IN IF q[fun] = "rbf" THEN RExp(Mul(R("-0.5"), EDiv(Mul(dd, dd), Mul(q[par], q[par])))) ELSE q[par]
  ELSE q[ker][s][t]

\* the optimisation problem a scenario poses
Problem(q) ==
  LET S == CovsOf(q)
      T == Len(S)
      prs == IF q.model \in {"GL", "LGL", "IC"} THEN <<>>
             ELSE IF q.model \in {"KTGL", "KLTGL"} THEN AllPairs(T) ELSE Adjacent(T)
      NP == Len(prs)
      lat == q.model \in {"LGL", "LTGL", "KLTGL", "LTMD", "IC"}
      W == IF q.model \in {"TGL", "LTGL", "LTMD"} THEN Rep(q.beta, NP)
           ELSE IF NP = 0 THEN <<>> ELSE [k \in 1..NP |-> KerW(q, "kpsi", "kpsi_fun", "kpsi_par", prs[k][1], prs[k][2])]
      V == IF ~lat \/ NP = 0 THEN <<>>
           ELSE IF q.model \in {"LTGL", "LTMD"} THEN Rep(q.eta, NP)
           ELSE [k \in 1..NP |-> KerW(q, "kphi", "kphi_fun", "kphi_par", prs[k][1], prs[k][2])]
  IN [loss |-> IF q.model \in {"LTMD", "IC"} THEN "sq" ELSE "ll",
      S |-> S, n |-> q.weights, alpha |-> q.alpha, pairs |-> prs, W |-> W,
      psi |-> IF NP = 0 THEN "l1" ELSE q.psi,
      lat |-> lat, tau |-> IF lat THEN q.tau ELSE R(0), V |-> V,
      phi |-> IF lat /\ NP > 0 THEN q.phi ELSE "l1", odall |-> FALSE, symk |-> q.model # "LTMD"]

Scale(p) == RMax(R(1), Mul(R("0.5"), RDiv(Sum(p.n), R(Len(p.n)))))

OptimClauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE
    LET q == c.inp
        o == c.out
        p == Force(Problem(q))
        T == Len(p.S)
        d == Len(p.S[1])
        rho == Scale(p)
        ref == RefSolve(p, rho, R("1e-9"), IF Has(q, "refit") THEN q.refit ELSE 6000)
        fref == RefValue(p, ref)
        Lm == IF p.lat THEN o.L ELSE ref.L
        fcode == Obj(p, o.K, Lm)
        Rm == IF p.lat THEN Sub(o.K, o.L) ELSE o.K
        shape == SameShape(o.K, p.S) /\ (p.lat => SameShape(o.L, p.S))
        fin == AllFinite(o.K) /\ (p.lat => AllFinite(o.L))
        gap == Sub(fcode, fref)
        node == p.psi = "node" \/ p.phi = "node"
        tolF == IF Has(q, "auto") THEN R("1e-4") ELSE IF ~o.converged THEN (IF node THEN R("2e-2") ELSE R("3e-3")) ELSE IF node THEN R("2e-5") ELSE R("3e-6")
        tolS == IF ~o.converged \/ Has(q, "auto") THEN R("1e-3") ELSE IF node THEN R("3e-5") ELSE R("1e-6")
        strict(t, i, j) == i # j /\ RLt(Mul(rho, Abs(ref.uP[t][i][j])), Mul(p.alpha, R("0.99")))
        zs == {x \in (1..T) \X (1..d) \X (1..d) : strict(x[1], x[2], x[3])}
    IN IF ~shape THEN <<<<"shape", FALSE, ToString(<<T, d>>)>>>>
       ELSE IF ~fin THEN <<<<"finite", FALSE, "">>>>
       ELSE IF ~RIsFinite(fref) THEN Assert(FALSE, <<"reference solver failed", c.id>>)
       ELSE <<
         <<"symmetric", ~p.symk \/ \A t \in 1..T : Close(o.K[t], MT(o.K[t]), tolS, tolS), "">>,
         <<"observed-precision-positive-definite", p.loss = "sq" \/ \A t \in 1..T : RLt(R(0), EigVals(Sym(Rm[t]))[1]), "">>,
         <<"latent-psd", ~p.lat \/ \A t \in 1..T : RLe(R("-1e-8"), EigVals(Sym(o.L[t]))[1]), "">>,
         <<"objective-optimal", RLe(gap, Mul(tolF, Add(R(1), Abs(fref)))), <<"gap", gap, "ref", fref, "its", ref.k, "e", ref.e>>>>,
         <<"zero-pattern", ~o.converged \/ \A x \in zs : RLe(Abs(o.K[x[1]][x[2]][x[3]]), tolS), "">>,
         <<"exact-zeros", IF q.model = "GL" THEN \A x \in zs : RLe(Abs(o.K[x[1]][x[2]][x[3]]), R(0))
                          ELSE Cardinality(zs) < 4 \/ \E x \in zs : RLe(Abs(o.K[x[1]][x[2]][x[3]]), R(0)), "">>,
         <<"covariance-is-inverse", o.cov = <<>> \/ \A t \in 1..T :
              Close(MMul(o.cov[t], o.K[t]), Eye(d), Add(R("1e-5"), Mul(R(2 * d), Mul(MaxAbs(o.cov[t]), MaxAbs(Sub(o.K[t], MT(o.K[t])))))), R("1e-5")) \/ RLe(MinElt(Abs(EigVals(Sym(o.K[t])))), R("1e-4")), "">>,
         <<"observed-getter", ~Has(o, "obs") \/ Close(o.obs, Rm, R("1e-9"), R("1e-9")), "">>,
         <<"reconstruction-error", ~Has(o, "rec") \/ Close(o.rec, SumSq(Sub(p.S, Rm)), R("1e-9"), R("1e-7")), "">> >>
=============================================================================
