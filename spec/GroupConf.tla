----------------------------- MODULE GroupConf -----------------------------
(***************************************************************************)
(* What fitting must do with samples and labels, and how transformations   *)
(* of the data act on a fitted model.                                      *)
(* A data set is [X, y] with y in 1..T naming the group of each row.       *)
(***************************************************************************)
EXTENDS Optim

Temporal(q) == q.est \notin {"GL", "LGL"}
Apply(D, st) ==
  CASE st.op \in {"samples", "block"} -> [X |-> [i \in 1..Len(D.X) |-> D.X[st.arg[i]]], y |-> [i \in 1..Len(D.y) |-> D.y[st.arg[i]]]]
    [] st.op \in {"labels", "strlabels"} -> D
    [] st.op = "features" -> [D EXCEPT !.X = [i \in 1..Len(D.X) |-> [j \in 1..Len(st.arg) |-> D.X[i][st.arg[j]]]]]
    [] st.op = "shift" -> [D EXCEPT !.X = [i \in 1..Len(D.X) |-> Add(D.X[i], st.arg[D.y[i]])]]
    [] st.op = "dup" -> [X |-> FlatSeq([i \in 1..st.arg |-> D.X]), y |-> FlatSeq([i \in 1..st.arg |-> D.y])]
RECURSIVE ApplyAll(_, _)
ApplyAll(D, ops) == IF ops = <<>> THEN D ELSE ApplyAll(Force(Apply(D, ops[1])), Tail(ops))

\* effect on a matrix of the model
Act(M, st) == IF st.op = "features" THEN [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> M[st.arg[i]][st.arg[j]]]] ELSE M
RECURSIVE ActAll(_, _)
ActAll(M, ops) == IF ops = <<>> THEN M ELSE ActAll(Act(M, ops[1]), Tail(ops))

Groups(q, D) == IF Temporal(q) THEN [t \in 1..q.T |-> RowsOf(D.X, D.y, t)] ELSE <<D.X>>
Loc(q, g) == IF q.cent THEN Mul(R(0), g[1]) ELSE ColMean(g)

Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE LET q == c.inp
           a == c.out.base
           b == c.out.run
           D0 == [X |-> q.X, y |-> q.g]
           D == ApplyAll(D0, q.ops)
           G0 == Force(Groups(q, D0))
           G == Force(Groups(q, D))
           T == Len(G)
           tol == R("3e-4")
       IN <<
         <<"location", Close(a.loc, [t \in 1..T |-> Loc(q, G0[t])], R("1e-9"), R("1e-9")), "">>,
         <<"location-after", Close(b.loc, [t \in 1..T |-> Loc(q, G[t])], R("1e-9"), R("1e-9")), "">>,
         <<"classes", a.classes = q.classes, a.classes>>,
         <<"classes-after", b.classes = q.classes_after, b.classes>>,
         <<"precision-moves-with-the-data", SameShape(a.K, b.K) /\ \A t \in 1..T : Close(b.K[t], ActAll(a.K[t], q.ops), tol, tol), "">>,
         <<"latent-moves-with-the-data", a.L = <<>> \/ \A t \in 1..T : Close(b.L[t], ActAll(a.L[t], q.ops), Mul(R(3), tol), tol), "">>,
         \* the fitted model is that of the groups' own empirical covariances and sizes
         <<"fit-is-the-solver-on-the-groups", Close(b.K, b.KS, R("1e-6"), R("1e-6")), "">>,
         <<"group-covariances", \A t \in 1..T : Close(b.S[t], EmpCov(G[t], q.cent), R("1e-9"), R("1e-9")), "">>,
         <<"group-sizes", ~Temporal(q) \/ b.n = [t \in 1..T |-> Len(G[t])], "">> >>
Init == JInit
Next == JNext(Clauses)
=============================================================================
