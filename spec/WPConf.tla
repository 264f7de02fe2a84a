------------------------------- MODULE WPConf -------------------------------
EXTENDS WProc
C9(a, b) == Close(a, b, R("1e-8"), R("1e-8"))
Con(q, o) == << <<"shape", o.shape = <<q.p, q.p, q.T>>, o.shape>>, <<"covariances", C9(o.Vt, Construct(q.u, q.L)), "">>, <<"inputs-untouched", o.clean, "">> >>
\* o.x[j][t]: the values of series j at time t over the nu replicates
Gp(q, o) ==
  LET six == R(6)
  IN << <<"shape", o.shape = <<q.nu, q.p, q.T>>, o.shape>>,
        <<"zero-mean", \A j \in 1..q.p, t \in 1..q.T : Averages(o.x[j][t], R(0), six), "">>,
        <<"kernel-covariance", \A j \in 1..q.p, t, r \in 1..q.T : t <= r => Averages(Mul(o.x[j][t], o.x[j][r]), q.K[t][r], six), "">>,
        <<"independent-series", \A j, l \in 1..q.p, t, r \in 1..q.T : j < l => Averages(Mul(o.x[j][t], o.x[l][r]), R(0), six), "">> >>
Pred(q, o) ==
  LET u == Interp(q.u, q.A, q.K)
  IN << <<"conditional-mean", Close(o.Vt, Construct(u, q.L), R("1e-6"), R("1e-6")), "">>,
        <<"agrees-at-training-times", q.at # "train" \/ Close(o.Vt, Construct(q.u, q.L), R("1e-6"), R("1e-6")), "">>, <<"inputs-untouched", o.clean, "">> >>
\* x0, x1: [coordinate][replicate] before and after; Prec: precision of the Gaussian target, m its mean
Moments(x, m, C, k) ==
  /\ \A a \in 1..Len(x) : Averages(x[a], m[a], k)
  /\ \A a, b \in 1..Len(x) : a <= b => Averages(Mul(Sub(x[a], m[a]), Sub(x[b], m[b])), C[a][b], k)
\* squared distance in the metric of the target has mean D (sensitive in its narrow directions)
Distance(x, m, P, k) ==
  LET z == [a \in 1..Len(x) |-> Sub(x[a], m[a])]
      d == FoldLeft(LAMBDA s, e : Add(s, Mul(P[e[1]][e[2]], Mul(z[e[1]], z[e[2]]))), Mul(R(0), x[1]), FlatSeq([a \in 1..Len(x) |-> [b \in 1..Len(x) |-> <<a, b>>]]))
  IN Averages(d, R(Len(x)), k)
Stationary(x0, x1, m, k) ==
  LET z0 == [a \in 1..Len(x0) |-> Sub(x0[a], m[a])]
      z1 == [a \in 1..Len(x0) |-> Sub(x1[a], m[a])]
  IN \A a \in 1..Len(x0) :
       /\ Averages(Sub(x1[a], x0[a]), R(0), k)
       /\ \A b \in 1..Len(x0) : Averages(Sub(Mul(z1[a], z1[b]), Mul(z0[a], z0[b])), R(0), k)
       /\ Averages(Sub(Mul(Mul(z1[a], z1[a]), Mul(z1[a], z1[a])), Mul(Mul(z0[a], z0[a]), Mul(z0[a], z0[a]))), R(0), k)
       /\ Averages(Sub(Abs(z1[a]), Abs(z0[a])), R(0), k)
Reversible(x0, x1, k) ==
  \A a \in 1..Len(x0) :
    /\ Averages(Sub(Mul(Mul(x0[a], x0[a]), Abs(x1[a])), Mul(Mul(x1[a], x1[a]), Abs(x0[a]))), R(0), k)
    /\ \A b \in 1..Len(x0) : Averages(Sub(Mul(x0[a], Mul(x1[b], x1[b])), Mul(x1[a], Mul(x0[b], x0[b]))), R(0), k)
\* coordinates of u in the order (i, j, t);  target N(0, K) x exp(-1/2 sum_t c_t tr V_t)
EssPrec(q) ==
  LET D == q.nu * q.p * q.T
      Ki == Force(MInv(q.K))
      LL == Force(MMul(MT(q.L), q.L))
      ii(a) == (a - 1) \div (q.p * q.T)
      jj(a) == (((a - 1) \div q.T) % q.p) + 1
      tt(a) == ((a - 1) % q.T) + 1
  IN [a \in 1..D |-> [b \in 1..D |->
        IF ii(a) # ii(b) THEN R(0)
        ELSE Add(IF jj(a) = jj(b) THEN Ki[tt(a)][tt(b)] ELSE R(0), IF tt(a) = tt(b) THEN Mul(q.cs[tt(a)], LL[jj(a)][jj(b)]) ELSE R(0))]]
LinLik(cs, V) == Mul(R("-0.5"), Sum([t \in 1..Len(cs) |-> Mul(cs[t], Trace(V[t]))]))
Ess(q, o) ==
  LET six == R(6)
      P == EssPrec(q)
      D == Len(P)
      zero == [a \in 1..D |-> R(0)]
      C == Force(MInv(P))
  IN << <<"start-from-target", Moments(q.x0, zero, C, six), "">>,
        <<"target-after-one-step", Moments(o.x1, zero, C, six) /\ Distance(o.x1, zero, P, six), "">>,
        <<"target-after-five-steps", Moments(o.x5, zero, C, six) /\ Distance(o.x5, zero, P, six), "">>,
        <<"stationary", Stationary(q.x0, o.x1, zero, six), "">>,
        <<"reversible", Reversible(q.x0, o.x1, six), "">>,
        <<"moves", RLe(R("0.9"), o.moved), o.moved>>,
        <<"state-consistent", \A k \in 1..Len(o.some) : LET V == Construct(o.some[k].u, q.L) IN C9(o.some[k].V, V) /\ C9(o.some[k].ll, LinLik(q.cs, V)), "">>,
        \* the slice lies below the current likelihood by an exponential amount, which the fall never exceeds
        <<"never-far-below", RLe(MaxElt(o.fall), R(25)), MaxElt(o.fall)>>,
        <<"falls-are-exponential-at-most", \A b \in {1, 2, 3} :
             LET f == RDiv(R(Cardinality({k \in 1..Len(o.fall) : RLt(R(b), o.fall[k])})), R(Len(o.fall)))
                 e == RExp(R(-b))
             IN RLe(f, Add(e, Mul(six, RSqrt(RDiv(e, R(Len(o.fall))))))), "">> >>
\* o.tr[k]: angles proposed in replicate k; log-likelihood of angle a relative to the start is -kk a^2
Essb(q, o) ==
  LET six == R(6)
      n == Len(o.tr)
      last(k) == o.tr[k][Len(o.tr[k])]
      ll(a) == Mul(Mul(R(-1), q.kk), Mul(a, a))
      done == {k \in 1..n : o.took[k]}
      first == [k \in 1..n |-> o.tr[k][1]]
      taken1 == [k \in 1..n |-> Sub(IF o.took[k] /\ Len(o.tr[k]) = 1 THEN R(1) ELSE R(0), RExp(ll(first[k])))]
      \* relative position of the proposals in brackets with two known edges
      pos == FlatSeq([k \in 1..n |-> FlatSeq([i \in 1..Len(o.tr[k]) |-> LET e == EdgesBefore(o.tr[k], i) IN
                IF e.up /\ e.dn THEN <<RDiv(Sub(o.tr[k][i], e.lo), Sub(e.hi, e.lo))>> ELSE <<>>])])
  IN << <<"returned-point-is-the-last-proposal", \A k \in done : Close(o.end[k], last(k), R("1e-6"), R("1e-6")), "">>,
        <<"proposals-in-the-bracket", \A k \in 1..n : \A i \in 1..Len(o.tr[k]) : InBracket(o.tr[k], i, q.width), "">>,
        <<"taken-above-rejected", \A k \in done : \A i \in 1..(Len(o.tr[k]) - 1) : RLe(ll(o.tr[k][i]), ll(last(k))), "">>,
        <<"first-proposal-symmetric", Averages(first, R(0), six), "">>,
        <<"first-proposal-spread", Averages(Mul(first, first), RDiv(Mul(q.width, q.width), R(6)), six), "">>,
        <<"first-proposal-taken-with-likelihood-ratio", Averages(taken1, R(0), six), "">>,
        <<"uniform-in-the-bracket", Len(pos) < 100 \/ (Averages(pos, R("0.5"), six) /\ Averages(Mul(pos, pos), RDiv(R(1), R(3)), six)), Len(pos)>> >>
\* entries of L row by row; target N(m, s^2) per entry x exp(-c/2 sum_t tr V_t)
EllPrec(q) ==
  LET ent == FlatSeq([i \in 1..q.p |-> [j \in 1..i |-> <<i, j>>]])
      M == Force(FoldLeft(LAMBDA a, v : Add(a, v), Mul(R(0), Eye(q.p)), Construct(q.u, Eye(q.p))))
  IN [a \in 1..Len(ent) |-> [b \in 1..Len(ent) |->
        IF ent[a][1] # ent[b][1] THEN R(0) ELSE Add(Mul(q.c_, M[ent[a][2]][ent[b][2]]), IF a = b THEN RDiv(R(1), Mul(q.sd, q.sd)) ELSE R(0))]]
Ell(q, o) ==
  LET six == R(6)
      P == EllPrec(q)
      C == Force(MInv(P))
      m == MVec(C, Mul(RDiv(q.mean_, Mul(q.sd, q.sd)), EExp(Mul(R(0), DiagOf(P)))))
  IN << <<"start-from-target", Moments(q.x0, m, C, six), "">>,
        <<"target-after-one-sweep", Moments(o.x1, m, C, six) /\ Distance(o.x1, m, P, six), "">>,
        <<"target-after-more-sweeps", Moments(o.x5, m, C, six) /\ Distance(o.x5, m, P, six), "">>,
        \* where the target is flat every proposal is taken: its variance shows
        <<"proposal-variance", q.c = "flat" => \A a \in 1..Len(q.x0) : LET d == Sub(o.x1[a], q.x0[a]) IN
             Averages(Mul(d, d), IF q.var = "scalar" THEN q.vps ELSE q.vpa[a], six), "">>,
        <<"stationary", Stationary(q.x0, o.x1, m, six), "">>,
        <<"every-entry-moves", \A a \in 1..Len(o.moved) : RLe(R("0.1"), o.moved[a]), o.moved>>,
        <<"symmetric-walk", \A a \in 1..Len(q.x0) : Averages(Mul(Sub(o.x1[a], q.x0[a]), Mul(Sub(o.x1[a], q.x0[a]), Sub(o.x1[a], q.x0[a]))), R(0), R(8)), "">> >>
\* logs of the kernel parameter before and after the step, s: log of the mean square of the series
Hyp(q, o) ==
  LET six == R(6)
      z0 == Sub(q.l0, q.mu_)
      z1 == Sub(o.l1, q.mu_)
      s == q.ls
      par(f0, f1) == Averages(Sub(f1, f0), R(0), six)
      sq(v) == Mul(v, v)
  IN << <<"prior-mean", Averages(z1, R(0), six), "">>, <<"prior-variance", Averages(sq(z1), sq(q.sigma), six), "">>,
        <<"stationary", /\ par(z0, z1) /\ par(sq(z0), sq(z1)) /\ par(Mul(z0, sq(z0)), Mul(z1, sq(z1)))
                        /\ par(Mul(z0, s), Mul(z1, s)) /\ par(Mul(sq(z0), s), Mul(sq(z1), s)) /\ par(Mul(z0, sq(s)), Mul(z1, sq(s))), "">>,
        <<"reversible", Averages(Sub(Mul(z0, sq(z1)), Mul(z1, sq(z0))), R(0), six), "">>,
        <<"positive", o.positive, "">>,
        <<"flag-tells-acceptance", o.flags, "">>,
        <<"moves", RLe(R("0.1"), o.moved), o.moved>> >>
\* stationary averages of the whole chain, by quadrature over log(theta) and L
Chain(q, o) ==
  LET n == 61
      zs == Grid(q.mu_, q.sigma, n)
      ls == IF q.ell = "fixed" THEN <<q.L0>> ELSE Grid(q.mL, q.sL, n)
      idx == (1..n) \X (1..Len(ls))
      g(z) == IF q.g = "const" THEN R(1) ELSE RExp(z)
      a(e) == LET th == g(zs[e[1]]) IN Add(R(1), Mul(Mul(q.c_, th), Mul(ls[e[2]], ls[e[2]])))
      gauss(x, m, s) == LET d == RDiv(Sub(x, m), s) IN RExp(Mul(R("-0.5"), Mul(d, d)))
      w0(e) == RDiv(Mul(gauss(zs[e[1]], q.mu_, q.sigma), IF q.ell = "fixed" THEN R(1) ELSE gauss(ls[e[2]], q.mL, q.sL)), RSqrt(a(e)))
      W == Force([i \in 1..n |-> [j \in 1..Len(ls) |-> w0(<<i, j>>)]])
      Z == Sum([i \in 1..n |-> Sum(W[i])])
      Ex(f(_)) == RDiv(Sum([i \in 1..n |-> Sum([j \in 1..Len(ls) |-> Mul(W[i][j], f(<<i, j>>))])]), Z)
      ok(v, m) == Averages(Batches(SubSeq(v, 201, Len(v)), 40), m, R(7))
      Eu2 == Ex(LAMBDA e : RDiv(g(zs[e[1]]), a(e)))
      Ez == Ex(LAMBDA e : zs[e[1]])
      Ez2 == Ex(LAMBDA e : Mul(zs[e[1]], zs[e[1]]))
      El == Ex(LAMBDA e : ls[e[2]])
      El2 == Ex(LAMBDA e : Mul(ls[e[2]], ls[e[2]]))
  IN << <<"as-many-as-iterations", Len(o.u) = q.n_iter /\ Len(o.ll) = q.n_iter /\ Len(o.lp) = q.n_iter /\ (q.ell = "fixed" \/ Len(o.L) = q.n_iter), "">>,
        <<"kernel-parameter", ok(o.lp, Ez) /\ ok(Mul(o.lp, o.lp), Ez2), <<Mean(o.lp), Ez>> >>,
        <<"processes", ok(o.u, R(0)) /\ ok(Mul(o.u, o.u), Eu2), <<Mean(Mul(o.u, o.u)), Eu2>> >>,
        <<"scale", q.ell = "fixed" \/ (ok(o.L, El) /\ ok(Mul(o.L, o.L), El2)), <<El, El2>> >>,
        <<"log-likelihoods", LET L == IF q.ell = "fixed" THEN Mul(q.L0, EExp(Mul(R(0), o.u))) ELSE o.L
                                 v == Mul(o.u, L)
                             IN C9(o.ll, Mul(Mul(R("-0.5"), q.c_), Mul(v, v))), "">> >>
Wp(q, o) ==
  LET T == q.T
      n == Len(o.ll)
      Vs(k) == Construct(o.us[k], o.Ls[k])
      logl(X, V) == Sum([t \in 1..T |-> Sum([i \in 1..Len(X[t]) |-> LogNormal(X[t][i], o.loc[t], V[t])])])
      wellc(V) == \A t \in 1..T : LET e == EigVals(Sym(V[t])) IN RLe(Mul(R("1e-7"), MaxElt(e)), MinElt(e))
      pos == o.pos + 1
      kk == {k \in 1..n : k % q.every = 0 \/ k = pos}
  IN << <<"kept-samples", n = q.n_iter - q.burn_in /\ o.n_u = n /\ o.n_lp = n /\ (q.ell = "fixed" \/ o.n_L = n), n>>,
        <<"classes", Close(o.classes, q.classes, R(0), R(0)), o.classes>>,
        <<"location", \A t \in 1..T : Close(o.loc[t], IF q.centred THEN Mul(R(0), q.X[t][1]) ELSE MeanOf(q.X[t]), R("1e-9"), R("1e-9")), "">>,
        <<"log-likelihoods", \A k \in kk : LET V == Vs(k) IN wellc(V) => Close(o.ll[k], logl(q.X, V), R("1e-4"), R("1e-5")), "">>,
        <<"best-sample", \A k \in 1..n : RLe(o.ll[k], o.ll[pos]), o.pos>>,
        <<"map-is-best-sample", C9(o.umap, o.us[pos]) /\ C9(o.Lmap, o.Ls[pos]) /\ Close(o.lmap, o.lp[pos], R("1e-12"), R("1e-12")), "">>,
        <<"covariance", C9(o.cov, Vs(pos)) /\ C9(o.Dmap, o.cov), "">>,
        <<"precision", wellc(o.cov) => \A t \in 1..T : Close(MMul(o.prec[t], o.cov[t]), Eye(q.p), R("1e-4"), R("1e-4")), "">>,
        <<"priors", \A k \in 1..Len(o.priors) : Close(o.priors[k][1], o.priors[k][3], R("1e-8"), R("1e-8")) /\ Close(o.priors[k][2], o.priors[k][4], R("1e-8"), R("1e-8")), o.priors>>,
        <<"default-degrees-of-freedom", o.default_nu = q.p + 1, o.default_nu>>,
        <<"degrees-of-freedom", Len(o.umap) = q.p + 1, Len(o.umap)>>,
        <<"lower-triangular", \A i, j \in 1..q.p : i < j => RSign(o.Lmap[i][j]) = 0, o.Lmap>>,
        <<"fixed-scale", q.ell = "learn" \/ LET A == FlatSeq(q.X) m == MeanOf(A) Z == [i \in 1..Len(A) |-> Sub(A[i], m)] IN C9(MMul(o.Lmap, MT(o.Lmap)), EDiv(MMul(MT(Z), Z), R(Len(A)))), "">>,
        <<"score", wellc(o.cov) => Close(o.score, logl(q.Y, o.cov), R("1e-4"), R("1e-5")), o.score>>,
        <<"kernel-parameters-positive", \A k \in 1..n : RLt(R(0), o.lp[k]), "">>,
        <<"same-seed-same-result", o.again, "">>,
        <<"parameters", o.params, "">>,
        <<"inputs-untouched", o.clean, "">> >>
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE LET k == c.inp.kind IN
       IF k = "con" THEN Con(c.inp, c.out) ELSE IF k = "gp" THEN Gp(c.inp, c.out) ELSE IF k = "pred" THEN Pred(c.inp, c.out)
       ELSE IF k = "ess" THEN Ess(c.inp, c.out) ELSE IF k = "essb" THEN Essb(c.inp, c.out) ELSE IF k = "ell" THEN Ell(c.inp, c.out) ELSE IF k = "hyp" THEN Hyp(c.inp, c.out)
       ELSE IF k = "chain" THEN Chain(c.inp, c.out) ELSE Wp(c.inp, c.out)
Init == JInit
Next == JNext(Clauses)
=============================================================================
