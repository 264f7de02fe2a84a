------------------------------- MODULE FBConf -------------------------------
(* Forward-backward splitting for the time-varying graphical lasso: a      *)
(* descent method on the objective of Optim (temporal norm l1 or squared   *)
(* l2), or on its variant with an l2 norm along time per entry.            *)
EXTENDS Optim

PenTime(K) == LET T == Len(K)
                  D == Force([t \in 1..(T - 1) |-> Sub(K[t + 1], K[t])])
                  d == Len(K[1])
              IN Sum([i \in 1..d |-> [j \in 1..d |-> Norm2([t \in 1..(T - 1) |-> D[t][i][j]])]])

Prob(q) == Force(Problem([q EXCEPT !.model = "TGL"]))
FObj(q, p, K) ==
  LET ridge == Mul(Mul(R("0.5"), q.vareps), SumSq(K))
  IN Add(ridge, IF q.pen = "l2t" THEN Add(Obj([p EXCEPT !.W = Mul(R(0), p.W)], K, <<>>), Mul(q.beta, PenTime(K)))
                ELSE Obj(p, K, <<>>))
\* starting point: inverse of the covariance with off-diagonal entries shrunk by 5%
StartK(q, p) == IF q.init = "array" THEN q.K0
                ELSE [t \in 1..Len(p.S) |-> MInv(Add(Mul(R("0.95"), OffDiag(p.S[t])), Sub(p.S[t], OffDiag(p.S[t]))))]

Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE
   LET q == c.inp
       o == c.out
       p == Prob(q)
       T == Len(p.S)
       d == Len(p.S[1])
       f == FObj(q, p, o.K)
       sc == Add(R(1), Abs(f))
       h == o.obj
       rho == Scale(p)
       ref == RefSolve(p, rho, R("1e-9"), 6000)
       fref == RefValue(p, ref)
       e == R("1e-4")
       dirs == {<<t, i, j>> \in (0..T) \X (1..d) \X (1..d) : i <= j}
       Bump(x, s) == [t \in 1..T |-> [i \in 1..d |-> [j \in 1..d |->
                        IF (x[1] = 0 \/ x[1] = t) /\ ({i, j} = {x[2], x[3]})
                        THEN Add(o.K[t][i][j], s) ELSE o.K[t][i][j]]]]
       local == \A x \in dirs : /\ RLe(f, Add(FObj(q, p, Force(Bump(x, e))), Mul(R("1e-7"), sc)))
                                /\ RLe(f, Add(FObj(q, p, Force(Bump(x, Mul(R(-1), e)))), Mul(R("1e-7"), sc)))
       \* a fixed step is only a descent step where it is below the inverse of the curvature
       lmin(Ks) == LET v == [t \in 1..T |-> EigVals(Sym(Ks[t]))[1]] IN Mul(R(-1), MaxElt([t \in 1..T |-> Mul(R(-1), v[t])]))
       safe == LET wm == MaxElt(q.weights)
                   ok(l) == RLe(Mul(Mul(R(2), q.gamma), wm), Mul(l, l))
               IN ok(lmin(o.K)) /\ ok(lmin(StartK(q, p)))
       \* the same run asked for differently
       m == o.more
       extra == IF q.extra = "plain"
                THEN << <<"same-without-history", Close(m.K, o.K, R("1e-9"), R("1e-9")) /\ m.n_iter = o.n_iter, <<m.n_iter, o.n_iter>> >>,
                        <<"line-search-steps", m.nls = m.nls2 /\ (IF q.choose \in {"lamda", "both"} THEN m.nls >= 0 ELSE m.nls = 0), <<m.nls, m.nls2>> >> >>
                ELSE IF q.extra = "stop"
                THEN LET g == m.obj
                         k == Len(g) IN
                     << <<"stop-same-run", \A i \in 1..k : i > Len(h) \/ Close(g[i], h[i], R("1e-9"), R("1e-9")), "">>,
                        \* stops at the first value within stop_when of stop_at, and nowhere else
                        <<"stop-first-hit", \A i \in 2..(k - 1) : ~RLt(Abs(Sub(g[i], m.stop)), Mul(Mul(m.when, R("0.999999")), Abs(m.stop))), k>>,
                        <<"stop-hit", IF m.converged THEN RLt(Abs(Sub(g[k], m.stop)), Mul(Mul(m.when, R("1.000001")), Abs(m.stop))) ELSE m.n_iter = m.budget, <<k, g[k], m.stop>> >>,
                        <<"stop-n-iter", m.n_iter = k - 1, <<m.n_iter, k>> >>,
                        <<"stop-answer", Close(g[k], FObj(q, p, m.K), R("1e-7"), R("1e-7")), "">> >>
                ELSE << <<"largest-alpha", Close(m.amax, MaxAbs([t \in 1..T |-> OffDiag(p.S[t])]), R("1e-9"), R("1e-9")), m.amax>>,
                        <<"alpha-max", Close(m.K, m.K2, R("1e-9"), R("1e-9")), "">> >>
   IN IF ~SameShape(o.K, p.S) THEN <<<<"shape", FALSE, "">>>>
      ELSE IF ~AllFinite(o.K) THEN <<<<"finite", FALSE, "">>>>
      ELSE <<
        <<"symmetric", \A t \in 1..T : Close(o.K[t], MT(o.K[t]), R("1e-7"), R("1e-7")), "">>,
        <<"positive-definite", \A t \in 1..T : RLt(R(0), EigVals(Sym(o.K[t]))[1]), "">>,
        <<"history-starts-at-start", Close(h[1], FObj(q, p, StartK(q, p)), R("1e-7"), R("1e-7")), <<h[1], FObj(q, p, StartK(q, p))>>>>,
        <<"history-ends-at-answer", Close(h[Len(h)], f, R("1e-7"), R("1e-7")), <<h[Len(h)], f>>>>,
        <<"n-iter", o.n_iter = Len(h) - 1, <<o.n_iter, Len(h)>>>>,
        <<"descent", q.pen = "l2t" \/ (q.choose = "fixed" /\ ~safe) \/ \A k \in 1..(Len(h) - 1) : RLe(h[k + 1], Add(h[k], Mul(R("1e-8"), sc))), "">>,
        <<"covariance-is-inverse", \A t \in 1..T : Close(MMul(o.cov[t], o.K[t]), Eye(d), R("1e-5"), R("1e-5")), "">>,
        <<"optimal", q.pen = "l2t" \/ q.vareps # R("0.0") \/ q.choose \in {"both", "fixed"}
                     \/ RLe(Sub(f, fref), Mul(IF o.converged THEN R("2e-6") ELSE R("2e-3"), sc)), <<f, fref, o.n_iter>>>>,
        <<"near-optimal", q.pen = "l2t" \/ q.choose = "both" \/ q.vareps # R("0.0") \/ ~o.converged \/ RLe(Sub(f, fref), Mul(R("2e-3"), sc)), <<f, fref>>>>,
        <<"locally-optimal", q.pen = "l2t" \/ ~o.converged \/ q.choose \in {"both", "fixed"} \/ local, "">>,
        <<"class-steps-are-the-function's", Has(o.more, "twin") => LET w == o.more.twin IN
              w.n = w.fn /\ Close(w.obj, w.fobj, R("1e-6"), R("1e-6")) /\ Close(w.K, w.fK, R("1e-6"), R("1e-6")), "">> >> \o extra
Init == JInit
Next == JNext(Clauses)
=============================================================================
