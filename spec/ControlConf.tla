---------------------------- MODULE ControlConf ----------------------------
(* Controls of the solver steer the path to the optimum, not the optimum;  *)
(* reporting flags change nothing but what is returned.                    *)
EXTENDS Optim
Flag(q) == q.ctl \in {"verbose", "no_history", "no_niter", "bare", "no_obj"}
Arity(q) == (IF q.model \in {"LGL", "IC", "LTGL", "KLTGL"} THEN 3 ELSE 2)
            + (IF q.ctl \in {"no_history", "bare"} THEN 0 ELSE 1) + (IF q.ctl \in {"no_niter", "bare"} THEN 0 ELSE 1)
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE LET q == c.inp
           a == c.out.base
           b == c.out.run
           p == Force(Problem(q))
           fa == Obj(p, a.K, IF p.lat THEN a.L ELSE <<>>)
           fb == Obj(p, b.K, IF p.lat THEN b.L ELSE <<>>)
           ra == IF p.lat THEN Sub(a.K, a.L) ELSE a.K
           rb == IF p.lat THEN Sub(b.K, b.L) ELSE b.K
           tol == IF a.warned \/ b.warned THEN R("2e-2") ELSE R("3e-6")
       IN IF ~SameShape(a.K, b.K) THEN <<<<"shape", FALSE, "">>>>
          ELSE <<
            <<"same-optimum", RLe(Abs(Sub(fa, fb)), Mul(tol, Add(R(1), Abs(fa)))), <<fa, fb, a.warned, b.warned>>>>,
            <<"same-answer", a.warned \/ b.warned \/ Close(ra, rb, R("2e-3"), R("2e-3")), MaxAbs(Sub(ra, rb))>>,
            <<"flags-change-nothing", ~Flag(q) \/ (Close(a.K, b.K, R("1e-10"), R("1e-10"))
                                                   /\ (~p.lat \/ Close(a.L, b.L, R("1e-10"), R("1e-10"))) /\ a.warned = b.warned), "">>,
            <<"return-arity", b.arity = Arity(q), <<b.arity, Arity(q)>>>>,
            <<"n-iter-last", q.ctl \in {"no_niter", "bare"} \/ ~Flag(q) \/ b.last = a.last, <<a.last, b.last>>>> >>
Init == JInit
Next == JNext(Clauses)
=============================================================================
