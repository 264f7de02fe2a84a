----------------------------- MODULE GlmConf -----------------------------
(* Recorded fits of the static GLM graphical models against Glm.tla.       *)
EXTENDS TraceBase, Glm
Rows(c) ==
  LET q == c.inp
      d == Len(q.X[1])
      P(r) == Row(q.fam, q.X, r, q.alpha, Zeros(d - 1), R(0))
  IN Force([r \in 1..d |->
       IF q.fam = "logit" THEN RefLogit(q.X, r, q.alpha)
       ELSE IF q.run = "converged" THEN RefRow(P(r))
       ELSE LET p == P(r) IN FixedRun(LAMBDA t : RowGrad(p, t), LAMBDA t, l : Soft(t, l), Zeros(d - 1), q.gamma, q.alpha, q.tol, q.max_iter).x])
\* how sure the optimum is about an entry being zero: clearly non-zero, or clearly inside the threshold
Sure(c, rows, i, j) ==
  LET q == c.inp
      x == Entry(rows, i, j)
  IN IF q.run # "converged" \/ q.fam = "logit" THEN RLt(R("3e-2"), Abs(x)) \/ (q.fam # "logit" /\ ~NonZero(x))
     ELSE LET g == RowGrad(Row(q.fam, q.X, i, q.alpha, Zeros(Len(rows) - 1), R(0)), rows[i])
          IN RLt(R("1e-3"), Abs(x)) \/ RLt(Abs(g[IF j < i THEN j ELSE j - 1]), Sub(q.alpha, R("1e-3")))
Neigh(c) ==
  LET q == c.inp
      o == c.out
      d == Len(q.X[1])
      rows == Rows(c)
      how == IF q.how = "UNION" THEN "union" ELSE q.how
      W == Force(Combine(how, rows))
      tol == IF q.fam = "logit" THEN R("3e-2") ELSE IF q.run = "converged" THEN R(IF q.fam = "poisson" THEN "2e-3" ELSE "2e-4") ELSE R("1e-7")
      bad == {x \in (1..d) \X (1..d) :
               /\ ~Close(o.K[x[1]][x[2]], W[x[1]][x[2]], tol, tol)
               /\ how = "union" \/ x[1] = x[2] \/ (Sure(c, rows, x[1], x[2]) /\ Sure(c, rows, x[2], x[1]))}
  IN << <<"neighbourhoods", bad = {}, <<bad, o.K, W>>>>,
        <<"symmetric", o.K = MT(o.K), o.K>> >>
\* a Poisson run cut short can only promise descent: check the union has finite entries and unit diagonal
Short(c) ==
  LET o == c.out
      d == Len(c.inp.X[1])
  IN << <<"finite", AllFinite(o.K), o.K>>, <<"symmetric", o.K = MT(o.K), o.K>>,
        <<"unit-diagonal", \A i \in 1..d : Close(o.K[i][i], R(1), R("1e-12"), R(0)), o.K>> >>
Ising(c) ==
  LET q == c.inp
      o == c.out
      d == Len(q.X[1])
      Run == FixedRun(LAMBDA K : SymGrad("ising", q.X, K), LAMBDA K, l : OdSoft(K, l), Mul(R(0), Eye(d)), q.gamma, q.alpha, q.tol, q.max_iter)
      W == IF q.run = "converged" THEN RefSym("ising", q.X, q.alpha) ELSE Run.x
      tol == IF q.run = "converged" THEN R("2e-4") ELSE R("1e-7")
  IN << <<"symmetric-optimum", Close(o.K, W, tol, tol), <<o.K, W>>>>,
        <<"symmetric", Close(o.K, MT(o.K), R("1e-12"), R("1e-12")), o.K>> >>
\* recorded iterates: the objective of each, the length of each step, and the stopping rule
History(c) ==
  LET q == c.inp
      H == c.out.hist
      d == Len(q.X[1])
      ObjAt(r, x) == IF q.fam = "ising" THEN Add(SymLoss("ising", q.X, x), Mul(q.alpha, SumAbs(OffDiag(x))))
                     ELSE RowObj(Row(q.fam, q.X, r, q.alpha, Zeros(d - 1), R(0)), x)
      ok(r) == LET h == H[r] IN \A e \in {h.at[k] : k \in 1..Len(h.at)} :
                  /\ Close(e.obj, ObjAt(r, e.x), R("1e-8"), R("1e-8"))
                  /\ Close(e.norm, RSqrt(SumSq(Sub(e.x, e.prev))), R("1e-10"), R("1e-8"))
      stop(r) == LET h == H[r] IN
                  /\ h.len <= q.max_iter + 1
                  /\ (h.lastiter >= 0 => h.lastiter + 2 = h.len)
                  /\ (h.len < q.max_iter + 1 => RLt(h.lastnorm, Mul(q.tol, R("1.000001"))))
      down(r) == LET v == H[r].objs IN \A k \in 1..(Len(v) - 1) : RLe(v[k + 1], Add(v[k], R("1e-9")))
  IN << <<"one-history-per-regression", Len(H) = (IF q.fam = "ising" THEN 1 ELSE d), Len(H)>>,
        <<"recorded-objective", \A r \in 1..Len(H) : ok(r), "">>,
        <<"stopping", \A r \in 1..Len(H) : stop(r), "">>,
        <<"descent", \A r \in 1..Len(H) : down(r), "">>,
        <<"answer-is-last-iterate", IF q.fam = "ising" THEN Close(c.out.K, H[1].last, R(0), R(0))
                                    ELSE q.how = "intersection" \/ Close(c.out.K, Union([r \in 1..d |-> H[r].last]), R("1e-12"), R("1e-12")), "">> >>
Common(c) ==
  LET o == c.out
  IN << <<"get-precision", o.get = o.K, "">>, <<"inputs-untouched", o.clean, "">>, <<"returns-self", o.self, "">> >>
Clauses(c) == IF c.err # "" THEN <<NoErr(c)>>
              ELSE Common(c) \o (IF c.inp.fam = "logit" THEN <<>> ELSE History(c)) \o (IF c.inp.fam = "ising" THEN Ising(c)
                                 ELSE IF c.inp.fam = "poisson" /\ c.inp.run # "converged" THEN Short(c) ELSE Neigh(c))
Init == JInit
Next == JNext(Clauses)
=============================================================================
