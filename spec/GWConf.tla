------------------------------- MODULE GWConf -------------------------------
EXTENDS GWish
SymM(M) == Close(M, MT(M), R("1e-12"), R("1e-12"))
Ugs(q, o) ==
  LET p == q.p
      n == 2 ^ Cardinality(Pairs(p))
      \* symmetric without loops
      simple(G) == Len(G) = p /\ \A i, j \in 1..p : (G[i][j] <=> G[j][i]) /\ ~G[i][i]
  IN << <<"all-graphs", Len(o.Gs) = n /\ {EdgesOfB(o.Gs[k]) : k \in 1..Len(o.Gs)} = SUBSET Pairs(p), Len(o.Gs)>>,
        <<"simple-graphs", \A k \in 1..Len(o.Gs) : simple(o.Gs[k]), "">>,
        <<"sorted-by-size", \A k \in 1..(Len(o.Gs) - 1) : Cardinality(EdgesOfB(o.Gs[k])) <= Cardinality(EdgesOfB(o.Gs[k + 1])), "">> >>
\* blanket of node i in a graph: its row without itself, entries below tol dropped
Row(G, i, tol) == [j \in 1..Len(G) |-> IF j = i \/ RLt(Abs(G[i][j]), tol) THEN R(0) ELSE G[i][j]]
Bool(v) == [j \in 1..Len(v) |-> IF RSign(v[j]) # 0 THEN R(1) ELSE R(0)]
Mb(q, o) ==
  LET p == q.p
      want(i) == [k \in 1..q.m |-> LET r == Row(q.Gs[k], i, q.tol) IN IF q.boolean THEN Bool(r) ELSE r]
      has(v, S) == \E k \in 1..Len(S) : Close(v, S[k], R("1e-12"), R("1e-12"))
  IN << <<"blankets", /\ Len(o.mb) = p
           /\ \A i \in 1..p : IF ~q.unique THEN Close(o.mb[i], want(i), R("1e-12"), R("1e-12"))
                              ELSE /\ Len(o.mb[i]) <= q.m
                                   /\ \A k \in 1..q.m : has(want(i)[k], o.mb[i])
                                   /\ \A k \in 1..Len(o.mb[i]) : has(o.mb[i][k], want(i)), o.mb>>,
        <<"no-two-equal-graphs", q.unique => \A k, l \in 1..Len(o.mb[1]) : k # l => \E i \in 1..p : ~Close(o.mb[i][k], o.mb[i][l], R("1e-12"), R("1e-12")), "">>,
        <<"inputs-untouched", o.clean, "">> >>
Set(v) == {j \in 1..Len(v) : v[j]}
Sb(q, o) ==
  << <<"softmax-of-lasso-scores", \A i \in 1..q.p : Close(o.v[i], BlanketScores(q.X, [k \in 1..Len(q.mb[i]) |-> Set(q.mb[i][k])], i, q.alphas), R("1e-5"), R("1e-5")), o.v>>,
     <<"inputs-untouched", o.clean, "">> >>
Ps(q, o) ==
  << <<"maximum-likelihood", SymM(o.P) /\ IsMLE(o.P, q.C, EdgesOfB(q.G), R("1e-3")), o.P>>,
     <<"positive-definite", RLt(R(0), MinElt(EigVals(Sym(o.P)))), o.P>>, <<"inputs-untouched", o.clean, "">> >>
Prior(q, X) == IF q.prior = "default" THEN Mul(Sub(q.d0, R(2)), VarDiag(X)) ELSE q.S0
Gw(q, o) ==
  LET X == q.X
      n == Len(X)
      E == EdgesOfB(q.G)
      S == Scatter(X)
      S0 == Prior(q, X)
      dn == Add(R(n), q.d0)
      C == EDiv(Add(S, S0), Sub(dn, R(2)))
      P0 == IPF(EDiv(S0, Sub(q.d0, R(2))), E, 300)
      tolP == IF q.mode = "covsel" THEN R("1e-3") ELSE R("3e-2")
      want == Score(q.score, S, n, o.P, E, q.d0, P0)
  IN << <<"mode-of-the-posterior", SymM(o.P) /\ IsMLE(o.P, C, E, tolP), o.P>>,
        <<"positive-definite", RLt(R(0), MinElt(EigVals(Sym(o.P)))), o.P>>,
        <<"posterior-parameters", Close(o.Sn, Add(S, S0), R("1e-7"), R("1e-7")) /\ Close(o.dn, dn, R("1e-9"), R("1e-9")), o.dn>>,
        <<"edges-and-dof", o.num_edges = Cardinality(E) /\ o.dof = q.p + Cardinality(E), o.dof>>,
        <<"loglik", Close(o.loglik, LogLik(S, o.P, n), R("1e-6"), R("1e-8")), o.loglik>>,
        \* up to the scale of the diagonal parameters (each may count twice), which cancels in the scores
        <<"normalising-constant", q.score = "bic" \/ LET w == LogNorm(o.P, dn, E, q.score = "laplace")
                                                        ok(v) == Close(o.norm, v, Add(R("2e-3"), Mul(R("1e-6"), Abs(w))), R("1e-6"))
                                                    IN ok(w) \/ ok(Sub(w, Mul(R(q.p), RLog(R(2))))), o.norm>>,
        <<"score", Close(o.score, want, Add(R("2e-3"), Mul(R("1e-6"), Abs(want))), R("1e-6")), <<o.score, want>> >>,
        <<"inputs-untouched", o.clean, "">> >>
\* which graphs the search can visit: the nodes choose one of their blankets each (softmax of the scores); an edge needs both ends
Reach(q, o) ==
  LET p == q.p
      Es == SeqOf({EdgesOf(o.prec[k], q.tol) : k \in 1..Len(o.prec)})
      m == Len(Es)
      nb(E, i) == {j \in 1..p : j # i /\ (<<i, j>> \in E \/ <<j, i>> \in E)}
      pr == [i \in 1..p |-> Force(BlanketScores(q.X, [k \in 1..m |-> nb(Es[k], i)], i, <<R("0.01"), R("0.5"), R(1)>>))]
      graph(c) == {e \in Pairs(p) : e[2] \in nb(Es[c[e[1]]], e[1]) /\ e[1] \in nb(Es[c[e[2]]], e[2])}
      weight(c) == FoldLeft(LAMBDA a, i : Mul(a, pr[i][c[i]]), R(1), [i \in 1..p |-> i])
      choices == [1..p -> 1..m]
      gs == {graph(c) : c \in choices}
      prob == [g \in gs |-> RSumSet(weight, {c \in choices : graph(c) = g})]
  IN prob
Bgl(q, o) ==
  LET p == q.p
      X == q.X
      n == Len(X)
      E == EdgesOf(o.P, R("1e-12"))
      S == Scatter(X)
      d0 == R(p + 2)
      C == EDiv(Add(S, Eye(p)), R(n + p))
      tolP == IF q.mode = "covsel" THEN R("1e-3") ELSE R("3e-2")
      prob == Reach(q, o)
      sc == [g \in DOMAIN prob |-> LET P == IPF(C, g, 300) IN Score(q.score, S, n, P, g, d0, IPF(EDiv(Eye(p), R(p)), g, 300))]
      likely == {g \in DOMAIN prob : RLe(R("0.08"), prob[g])}
      slack == R("0.1")
      loc == IF q.centered THEN Mul(R(0), X[1]) ELSE EDiv(FoldLeft(LAMBDA a, x : Add(a, x), Mul(R(0), X[1]), X), R(n))
  IN IF ~AllFinite(o.P) THEN << <<"finite", FALSE, o.P>> >>
     ELSE << <<"symmetric-positive-definite", SymM(o.P) /\ RLt(R(0), MinElt(EigVals(Sym(o.P)))), o.P>>,
        <<"reachable-graph", q.top > 1 \/ E \in DOMAIN prob, E>>,
        <<"mode-of-its-graph", q.top > 1 \/ IsMLE(o.P, C, E, tolP), o.P>>,
        <<"best-scoring-graph", (q.top = 1 /\ E \in DOMAIN prob) => \A g \in likely : RLe(sc[g], Add(sc[E], slack)), <<E, [g \in likely |-> sc[g]]>> >>,
        <<"union-of-graphs", q.top = 1 \/ \E g \in DOMAIN prob : g \subseteq E, E>>,
        <<"covariance", q.via = "fn" \/ Close(o.cov, MInv(o.P), R("1e-8"), R("1e-8")), "">>,
        <<"class-is-the-function", \A k \in 1..2 : Close(o.twin[k][1], o.twin[k][2], R("1e-6"), R("1e-6")), o.twin>>,
        <<"location", q.via = "fn" \/ Close(o.loc, loc, R("1e-10"), R("1e-10")), "">>,
        <<"inputs-untouched", o.clean, "">> >>
Hc(q, o) ==
  LET W == MInv(q.K)
      p == q.p
      d2 == Sub(q.delta, R(2))
      G == Mul(R("-0.5"), Sub(q.D, Mul(d2, W)))
      \* free parameters in column order of the upper triangle
      par == SelectSeq(FlatSeq([j \in 1..p |-> [i \in 1..j |-> <<i, j>>]]), LAMBDA e : RSign(q.K[e[1]][e[2]]) # 0)
      f(e) == IF e[1] = e[2] THEN R(2) ELSE R(1)
      want == IF q.fn = "h" THEN Hfun(q.D, q.K, q.delta)
              ELSE IF q.fn = "first" THEN G
              ELSE IF q.fn = "first2" THEN [i \in 1..p |-> [j \in 1..p |-> IF i = j THEN G[i][j] ELSE Add(G[i][j], G[j][i])]]
              ELSE [a \in 1..Len(par) |-> [b \in 1..Len(par) |-> Mul(Mul(Mul(R("-0.5"), d2), Mul(f(par[a]), f(par[b]))), Curv(W, par[a], par[b]))]]
  \* the order of the parameters is free for the matrix of second derivatives
  IN IF q.fn = "second2" THEN << <<q.fn, Len(o.v) = Len(par) /\ Close(EigVals(o.v), EigVals(want), R("1e-8"), R("1e-8"))
                                          /\ Close(SortR(DiagOf(o.v)), SortR(DiagOf(want)), R("1e-8"), R("1e-8")), <<o.v, want>> >> >>
     ELSE << <<q.fn, Close(o.v, want, R("1e-8"), R("1e-8")), <<o.v, want>> >> >>
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE LET k == c.inp.kind IN
       IF k = "ugs" THEN Ugs(c.inp, c.out) ELSE IF k = "mb" THEN Mb(c.inp, c.out) ELSE IF k = "sb" THEN Sb(c.inp, c.out)
       ELSE IF k = "ps" THEN Ps(c.inp, c.out) ELSE IF k = "gw" THEN Gw(c.inp, c.out) ELSE IF k = "h" THEN Hc(c.inp, c.out) ELSE Bgl(c.inp, c.out)
Init == JInit
Next == JNext(Clauses)
=============================================================================
