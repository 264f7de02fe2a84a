---------------------------- MODULE GlmTimeConf ----------------------------
(* Recorded fits of the temporal GLMs against GlmTime.tla.                 *)
EXTENDS TraceBase, GlmTime
Fn(c) ==
  LET q == c.inp
      o == c.out
      f == TObj(q.fam, q.X, o.K, q.alpha, q.W, q.psi)
      T == Len(q.X)
  IN (IF q.fam = "ising"
      THEN LET ref == RefTime("ising", q.X, q.alpha, q.W, q.psi)
               fr == TObj("ising", q.X, ref, q.alpha, q.W, q.psi)
               tol == R(IF q.psi = "node" THEN "3e-3" ELSE "1e-4")
           IN << <<"optimum", RLe(f, Add(fr, Mul(tol, Add(R(1), Abs(fr))))), <<f, fr, o.K, ref>>>>,
                 <<"zero-diagonal", \A t \in 1..T : RLe(MaxAbs(DiagOf(o.K[t])), R(IF q.psi = "node" THEN "1e-3" ELSE "1e-12")), o.K>> >>
      ELSE << <<"unit-diagonal", \A t \in 1..T : Close(DiagOf(o.K[t]), [j \in 1..Len(o.K[t]) |-> R(1)], R("1e-12"), R("1e-12")), o.K>> >>
           \o (IF T = 1 \/ (q.psi # "laplacian" /\ q.ker \in {"chain", "dense"}) THEN <<>>
               ELSE LET fx == PoisFix(q.X, o.K, q.alpha, q.W, q.rhov)
                    IN << <<"fixed-point", Close(o.K, fx, R("2e-3"), R("2e-3")), <<o.K, fx>>>> >>))
     \o << <<"symmetric", \A t \in 1..T : Close(o.K[t], MT(o.K[t]), R("1e-12"), R("1e-12")), o.K>>,
           <<"reported-objective", ~q.hist \/ Close(o.obj, f, R("1e-3"), R(IF q.psi \in {"l1", "laplacian"} THEN "1e-3" ELSE "1e-2")), <<o.obj, f>>>>,
           <<"iterations", ~q.hist \/ o.nhist = o.n_iter + 1, <<o.nhist, o.n_iter>>>>,
           <<"inputs-untouched", o.clean, "">> >>
     \o (IF ~q.stop THEN <<>>
         ELSE LET h == o.stopped
                  k == Len(h)
              IN << <<"stop-first-hit", \A i \in 2..(k - 1) : ~RLt(Abs(Sub(h[i], o.at)), Mul(R("0.0009999"), Abs(o.at))), <<h, o.at>> >>,
                    <<"stop-hit", o.same \/ RLt(Abs(Sub(h[k], o.at)), Mul(R("0.0010001"), Abs(o.at))), <<h, o.at>> >>,
                    <<"stop-same-run", \A i \in 1..k : i <= Len(o.objs) /\ Close(h[i], o.objs[i], R("1e-9"), R("1e-9")), "">>,
                    <<"stop-n-iter", o.stop_n = k - 1, o.stop_n>> >>)
Class(c) ==
  LET o == c.out
  IN IF c.inp.ker = "short" THEN << <<"kernel-size-refused", o.refused, "">> >>
     ELSE << <<"history", ~c.inp.hist \/ o.nhist = o.n_iter + 1, <<o.nhist, o.n_iter>> >>,
        <<"warnings", o.warned = o.warned_fn, <<o.warned, o.warned_fn>> >>,
        <<"estimator-is-solver-on-groups", Close(o.K, o.Kfn, R("1e-9"), R("1e-9")), <<o.K, o.Kfn>>>>,
        <<"classes", Close(o.classes, c.inp.classes, R("1e-12"), R("1e-12")), o.classes>>,
        <<"get-precision", o.get = o.K, "">>,
        <<"n-iter", o.n_iter = o.n_fn, <<o.n_iter, o.n_fn>>>>,
        <<"inputs-untouched", o.clean, "">> >>
Clauses(c) == IF c.err # "" THEN <<NoErr(c)>> ELSE IF c.inp.via = "fn" THEN Fn(c) ELSE Class(c)
Init == JInit
Next == JNext(Clauses)
=============================================================================
