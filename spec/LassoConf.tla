----------------------------- MODULE LassoConf -----------------------------
(* Recorded results of the lasso family against Lasso.tla.                 *)
EXTENDS Lasso
Hist(p, h, init, step(_), rep(_)) ==
  LET RECURSIVE W(_, _)
      W(s, k) == IF k > Len(h) \/ k > 25 THEN <<>>
                 ELSE LET n == step(s) IN <<Close(h[k], rep(n), R("1e-7"), R("1e-6"))>> \o W(n, k + 1)
  IN W(init, 1)
Opt(q, p, x, what) ==
  LET ref == RefSum(p)
      f == FSum(p, x)
      fr == FSum(p, ref)
  IN <<what, RLe(f, Add(fr, Mul(R(IF q.opt = "loose" THEN "3e-1" ELSE "1e-5"), Add(R("1e-2"), Abs(fr))))), <<f, fr>>>>
Fns(c) ==
  LET q == c.inp
      o == c.out
      p == IF q.fn = "overlap" THEN ProbC(q.A, q.b, q.lamda, q.groups, q.rho, q.tol, q.rtol)
           ELSE Prob(q.A, q.b, q.lamda, q.groups, q.rho, q.relax, q.tol, q.rtol)
      pc == ProbC(q.A, q.b, q.lamda, q.groups, R(1), q.tol, q.rtol)
      hs == IF q.fn = "overlap" THEN Hist(p, o.hist, InitC(p), LAMBDA s : StepC(p, s), LAMBDA s : ReportC(p, s))
            ELSE Hist(p, o.hist, InitZ(p), LAMBDA s : StepZ(p, s), LAMBDA s : ReportZ(p, s))
      bad == {k \in 1..Len(hs) : ~hs[k]}
      n == Len(o.hist)
  IN << Opt(q, pc, o.x, "optimum"),
        <<"plain-return", q.fn = "overlap" \/ Close(o.plain, o.x, R("1e-12"), R("1e-12")), "">>,
        <<"history-is-the-iteration", bad = {}, bad>>,
        <<"stops-when-told", IF q.fn = "overlap" THEN n <= q.max_iter /\ o.k = n - 1
                             ELSE n <= q.max_iter /\ (\A k \in 1..(n - 1) : ~Stops(o.hist[k])) /\ (Stops(o.hist[n]) \/ n = q.max_iter), n>>,
        <<"inputs-untouched", o.clean, "">> >>
Latent(c) ==
  LET q == c.inp
      ref == RefLatent(q.A, q.b, q.lamda, q.groups)
      d == MaxAbs(Sub(c.out.x, ref))
  IN << <<"latent-optimum", RLe(d, Mul(R("2e-3"), Add(R(1), MaxAbs(ref)))), <<c.out.x, ref>>>> >>
\* a column of targets fitted by the estimator
Fit1(q, A, b, coef) ==
  IF q.mode = "admm" THEN Opt(q, ProbC(A, b, q.lamda, q.groups, R(1), q.tol, q.rtol), coef, "optimum")
  ELSE LET ref == RefLatent(A, b, q.lamda, q.groups)
       IN <<"latent-optimum", RLe(MaxAbs(Sub(coef, ref)), Mul(R("2e-3"), Add(R(1), MaxAbs(ref)))), <<coef, ref>>>>
MeanV(v) == RDiv(Sum(v), R(Len(v)))
Est(c) ==
  LET q == c.inp
      o == c.out
      n == Len(q.A)
      d == Len(q.A[1])
      K == Len(q.B)                       \* target columns
      xm == [j \in 1..d |-> IF q.icpt THEN MeanV([i \in 1..n |-> q.A[i][j]]) ELSE R(0)]
      Ac1 == Force([i \in 1..n |-> Sub(q.A[i], xm)])
      \* normalize: columns of length one
      sc == Force([j \in 1..d |-> IF q.norm THEN Norm([i \in 1..n |-> Ac1[i][j]]) ELSE R(1)])
      Ac == Force([i \in 1..n |-> [j \in 1..d |-> RDiv(Ac1[i][j], sc[j])]])
      ym == Force([k \in 1..K |-> IF q.icpt THEN MeanV(q.B[k]) ELSE R(0)])
      cols == [k \in 1..K |-> Fit1(q, Ac, Sub(q.B[k], ym[k]), Mul(sc, o.coef[k]))]
      dec == Force([k \in 1..K |-> [i \in 1..Len(q.At) |-> Add(Dot(q.At[i], o.coef[k]), o.icpt[k])]])
  IN cols \o << <<"intercept", Close(o.icpt, [k \in 1..K |-> Sub(ym[k], Dot(xm, o.coef[k]))], R("1e-8"), R("1e-8")), o.icpt>>,
        <<"sparse-coefficients", Close(o.sparse, o.coef, R(0), R(0)), o.sparse>>,
        <<"one-report-per-target", o.nhist = K /\ Len(o.n_iter) = K /\ (\A k \in 1..K : o.n_iter[k] >= 0 /\ o.n_iter[k] <= 6000), <<o.nhist, o.n_iter>> >>,
        <<"inputs-untouched", o.clean, "">> >>
     \o (IF q.fn = "class" THEN << <<"predict", Close(o.pred, dec, R("1e-8"), R("1e-8")), "">>,
               <<"class-steps", \A m \in 1..Len(o.twin) : o.twin[m].k = o.twin[m].fk /\ Close(o.twin[m].x, o.twin[m].fx, R("1e-7"), R("1e-7")), "">> >>
         ELSE << <<"classes", o.classes = q.classes, o.classes>>,
                 <<"decides", \A i \in 1..Len(q.At) :
                    LET got == CHOOSE m \in 1..Len(q.classes) : q.classes[m] = o.pred[i]
                    IN IF K = 1 THEN (IF RLt(R(0), dec[1][i]) THEN got = 2 ELSE got = 1)
                       ELSE \A m \in 1..K : RLe(dec[m][i], Add(dec[got][i], R("1e-9"))), o.pred>> >>)
Clauses(c) == IF c.err # "" THEN <<NoErr(c)>>
              ELSE IF c.inp.fn \in {"lasso", "group", "overlap"} THEN Fns(c)
              ELSE IF c.inp.fn \in {"latent", "prox"} THEN Latent(c) ELSE Est(c)
Init == JInit
Next == JNext(Clauses)
=============================================================================
