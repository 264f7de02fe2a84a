------------------------------ MODULE ClusConf ------------------------------
EXTENDS Cluster
\* different warm starts of the same convex problem stop within the tolerance of its residuals
C4(a, b) == Close(a, b, R("2e-2"), R("2e-2"))
C3(a, b) == Close(a, b, R("5e-3"), R("5e-3"))
Sim(q, o) ==
  LET T == q.T
      k == IF q.k = 0 THEN T ELSE q.k
      \* the sparse part, which the temporal penalty couples
      \* (the Ising model compares its networks by their off-diagonal entries whatever psi is)
      D == Force(IF q.model = "ISING" THEN DistOd(o.prec) ELSE DistOf(o.prec, q.psi))
      C == CompleteLinkage(D, k)
      mine == {j \in 1..Len(q.parts) : PartOf(q.parts[j]) = C.parts}
      j == CHOOSE j \in mine : TRUE
  IN IF q.ker # "learn" THEN << <<"kernel-model", Close(o.prec, o.refits[1].prec, R("1e-8"), R("1e-8")) /\ (q.model = "LTGL" => Close(o.lat, o.refits[1].lat, R("1e-8"), R("1e-8"))), "">>,
          <<"iterations", o.n_iter = o.refits[1].n_iter, <<o.n_iter, o.refits[1].n_iter>> >>,
          <<"history", q.hist => o.hist = o.refits[1].hist, <<o.hist, o.refits[1].hist>> >>, <<"inputs-untouched", o.clean, "">> >>
     ELSE << <<"table-of-kernels", \A i \in 1..Len(q.parts) : Close(q.kernels[i], ClusterKernel(PartOf(q.parts[i]), T, q.beta_), R("1e-9"), R("1e-9")), "">>,
        <<"one-table-entry", Cardinality(mine) = 1, C.parts>>,
        \* fixed point: the model of the clusters of its own precisions
        <<"fits-its-own-clusters", (~o.warned /\ C.clear) => IF q.model = "LTGL" THEN C4(o.prec, o.refits[j].prec) ELSE IF q.model = "ISING" THEN Close(o.prec, o.refits[j].prec, R("5e-4"), R("5e-4")) ELSE C3(o.prec, o.refits[j].prec), <<C.parts, o.prec, o.refits[j].prec>> >>,
        <<"latent-part", (q.model = "LTGL" /\ ~o.warned /\ C.clear) => Close(o.lat, o.refits[j].lat, R("2e-2"), R("2e-2")), "">>,
        <<"similarity", ~o.warned => Close(o.sim, Similarity(D), R("1e-7"), R("1e-7")), o.sim>>,
        <<"transform", o.transform, "">>,
        <<"transform-needs-fit", o.refuses, "">>,
        <<"history", q.hist => (o.hist >= 1 /\ o.n_iter >= 1), <<o.hist, o.n_iter>> >>,
        <<"inputs-untouched", o.clean, "">> >>
\* one outer round: the model of the clusters of the precisions it starts from
Step(q, o) ==
  LET C1 == CompleteLinkage(Force(DistOf(q.init, q.psi)), q.k)
      C2 == CompleteLinkage(Force(IF q.model = "ISING" THEN DistOd(o.one) ELSE DistOf(o.one, q.psi)), q.k)
      ix(C) == CHOOSE j \in 1..Len(q.parts) : PartOf(q.parts[j]) = C.parts
  IN << <<"table-of-kernels", \A i \in 1..Len(q.parts) : Close(q.kernels[i], ClusterKernel(PartOf(q.parts[i]), q.T, q.beta_), R("1e-9"), R("1e-9")), "">>,
        \* the Ising model starts from times that are not coupled
        <<"first-round", IF q.model = "ISING" THEN C4(o.one, o.refits[Len(q.parts) + 1].prec) ELSE C1.clear => C4(o.one, o.refits[ix(C1)].prec), C1.parts>>,
        <<"one-round-is-not-settled", o.warned, "">>,
        <<"second-round", C2.clear => C4(o.two, o.refits[ix(C2)].prec), C2.parts>>,
        <<"inputs-untouched", o.clean, "">> >>
Bad(q, o) == << <<"refused", o.refused, o.what>> >>
Poi(q, o) == << <<"usable", o.ok, "">> >>
Km(q, o) ==
  LET res == KMResults(q.Gs, q.k, q.rounds)
  IN << <<"shape", Len(o.K) = q.n /\ \A i \in 1..q.n : Len(o.K[i]) = q.n, "">>,
        <<"a-run-of-the-algorithm", \E r \in res : r.settled = ~o.warned /\ Close(o.K, KMKernel(r.D), R("1e-9"), R("1e-9")), <<o.K, o.warned, {r.settled : r \in res}>> >>,
        <<"inputs-untouched", o.clean, "">> >>
Rep(q, o) ==
  << <<"common-edges", Close(o.rep, Common(q.Gs), R(0), R(0)), o.rep>>,
     <<"distances", Close(o.D, [i \in 1..q.n |-> [j \in 1..Len(q.Hs) |-> GDist(q.Gs[i], q.Hs[j])]], R("1e-12"), R("1e-12")), o.D>>,
     <<"inputs-untouched", o.clean, "">> >>
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE LET k == c.inp.kind IN IF k = "step" THEN Step(c.inp, c.out) ELSE IF k = "sim" THEN Sim(c.inp, c.out) ELSE IF k = "km" THEN Km(c.inp, c.out) ELSE IF k = "bad" THEN Bad(c.inp, c.out) ELSE IF k = "poi" THEN Poi(c.inp, c.out) ELSE Rep(c.inp, c.out)
Init == JInit
Next == JNext(Clauses)
=============================================================================
