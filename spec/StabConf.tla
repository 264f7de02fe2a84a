----------------------------- MODULE StabConf -----------------------------
EXTENDS Stability
Eq(a, b) == Close(a, b, R("1e-10"), R("1e-10"))
FnClauses(c) ==
  LET q == c.inp
      o == c.out
      want == IF q.fn = "global_instability" THEN Instability(q.Gs) ELSE IF q.fn = "upper_bound" THEN UpperBound(q.Gs) ELSE Graphlet(q.Gs)
  IN << <<q.fn, Eq(o.v, want), <<o.v, want>> >>, <<"inputs-untouched", o.clean, "">> >>

\* a run records: params (sequence of parameter settings, one number per name), fits (which candidate, which rows,
\* which graphs), the reported instabilities and the selection
Size(q, n) ==
  LET base == IF q.given = 0 THEN RFloor(RMin(Mul(R(10), RSqrt(R(n))), R(n - 10))) ELSE q.given
  IN IF q.classes = 0 THEN base ELSE (base \div q.classes) * q.classes
Desc(v) == \A k \in 1..(Len(v) - 1) : RLt(v[k + 1], v[k])
Ranges(P, j) == {P[k][j] : k \in 1..Len(P)}
RunClauses(q, o, X) ==
  LET n == Len(X)
      nc == Len(o.params)
      cand(k) == SelectSeq(o.fits, LAMBDA f : ~f.refit /\ f.cand = k)
      Gs(k) == [i \in 1..Len(cand(k)) |-> cand(k)[i].G]
      refits == SelectSeq(o.fits, LAMBDA f : f.refit)
      size == Size(q, n)
      raw == [k \in 1..nc |-> Instability(Gs(k))]
      mono == RunMax(raw)
      upper == RunMax([k \in 1..nc |-> UpperBound(Gs(k))])
      sure(v) == \A k \in 1..nc : RLt(R("1e-9"), Abs(Sub(v[k], Threshold)))
      stars == q.mode = "stars"
      ruled == q.refit = "rule"
      adj(v) == IF q.scoring = "call" THEN Add(Mul(R(2), v), R(1)) ELSE v
      ok(v) == {k \in 1..nc : RLe(v[k], Threshold)}
      last(S, none) == IF S = {} THEN none ELSE CHOOSE k \in S : \A j \in S : j <= k
      b == o.best_index + 1
      lb == last(ok(mono), nc + 1)
      ub == last(ok(upper), 1)
      inside == {k \in 1..nc : ub <= k /\ k <= lb}
      gr == [k \in 1..nc |-> Graphlet(Gs(k))]
  IN IF ~(/\ nc = q.n_candidates /\ \A k \in 1..nc : Len(cand(k)) = q.reps
          /\ \A i \in 1..Len(o.fits) : o.fits[i].refit \/ o.fits[i].cand \in 1..nc)
     THEN << <<"every-candidate-fitted-on-every-subsample", FALSE, [k \in 1..nc |-> Len(cand(k))]>> >>
     ELSE <<
       <<"all-combinations", \A k, l \in 1..nc : k # l => o.params[k] # o.params[l], o.params>>,
       <<"candidates-from-sparse-to-dense",
          \* a later candidate never regularises every parameter at least as much as an earlier one
          \A k, l \in 1..nc : k < l => \E j \in 1..Len(o.params[k]) : RLt(o.params[l][j], o.params[k][j]), o.params>>,
       <<"subsample-size", \A i \in 1..Len(o.fits) : o.fits[i].refit \/ Len(o.fits[i].rows) = size, <<size, [i \in 1..Len(o.fits) |-> Len(o.fits[i].rows)]>> >>,
       <<"subsample-without-repetition", \A i \in 1..Len(o.fits) : Cardinality({o.fits[i].rows[r] : r \in 1..Len(o.fits[i].rows)}) = Len(o.fits[i].rows), "">>,
       <<"subsample-balanced", q.classes = 0 \/ \A i \in 1..Len(o.fits) : o.fits[i].refit \/
            \A y \in 1..q.classes : Cardinality({r \in 1..Len(o.fits[i].rows) : o.fits[i].y[r] = y - 1}) = size \div q.classes, "">>,
       <<"labels-follow-rows", \A i \in 1..Len(o.fits) : \A r \in 1..Len(o.fits[i].rows) : q.classes = 0 \/ o.fits[i].y[r] = o.y[o.fits[i].rows[r] + 1], "">>,
       <<"subsamples-differ", \E k \in 1..nc, i, j \in 1..q.reps : {cand(k)[i].rows[r] : r \in 1..size} # {cand(k)[j].rows[r] : r \in 1..size}, "">>,
       <<"raw-instability", Eq(o.raw, raw), <<o.raw, raw>> >>,
       <<"monotonized-instability", Eq(o.mono, mono), <<o.mono, mono>> >>,
       <<"discarded-above-threshold", (stars /\ sure(mono)) => \A k \in 1..nc : IF RLe(mono[k], Threshold) THEN Eq(o.kept[k], mono[k]) ELSE (~RIsFinite(o.kept[k]) /\ RLt(o.kept[k], R(0))), o.kept>>,
       <<"selects-largest-stable", (stars /\ sure(mono) /\ ~ruled) =>
            IF ok(mono) = {} THEN b = 1
            ELSE /\ b \in ok(mono)
                 /\ \A k \in ok(mono) : RLe(mono[k], Add(mono[b], R("1e-12")))
                 /\ \A k \in 1..(b - 1) : RLt(o.kept[k], o.kept[b]), <<b, mono>> >>,
       <<"graphlet-instability", stars \/ Eq(o.graphlets, gr), <<o.graphlets, gr>> >>,
       <<"upper-bounds", stars \/ Eq(o.upper, upper), <<o.upper, upper>> >>,
       <<"bounds", (~stars /\ sure(mono) /\ sure(upper)) => (o.lb = lb - 1 /\ o.ub = ub - 1), <<o.lb, o.ub, lb, ub>> >>,
       <<"selects-most-stable-within-bounds", (~stars /\ sure(mono) /\ sure(upper) /\ inside # {} /\ ~ruled) =>
            (b \in inside /\ \A k \in inside : RLe(gr[b], Add(gr[k], R("1e-12")))), <<b, lb, ub, gr>> >>,
       <<"best-params", o.best_params = o.params[b], o.best_params>>,
       <<"refit", IF q.refit # "no" THEN /\ Len(refits) = 1 /\ refits[1].cand = b /\ refits[1].rows = [i \in 1..n |-> i - 1]
                                   /\ o.best_estimator = o.params[b]
                  ELSE Len(refits) = 0 /\ ~o.has_best, <<Len(refits), b>> >>,
       <<"refit-rule", ruled => \A k \in 1..nc : RLe(o.mean_score[k], o.mean_score[b]), b>>,
       <<"scored-on-what-is-left-out", \A i \in 1..Len(o.fits) : o.fits[i].refit \/
            {o.fits[i].test[r] : r \in 1..Len(o.fits[i].test)} = (0..(n - 1)) \ {o.fits[i].rows[r] : r \in 1..Len(o.fits[i].rows)}, "">>,
       <<"mean-score", \A k \in 1..nc : Close(o.mean_score[k], RDiv(Sum([i \in 1..q.reps |-> adj(cand(k)[i].score)]), R(q.reps)), R("1e-9"), R("1e-9")), o.mean_score>>,
       <<"split-scores", \A k \in 1..nc : Len(o.splits[k]) = q.reps /\ Close(SortR(o.splits[k]), SortR([i \in 1..q.reps |-> adj(cand(k)[i].score)]), R("1e-9"), R("1e-9")), o.splits>>,
       <<"spread-of-scores", \A k \in 1..nc : Close(Mul(o.std_score[k], o.std_score[k]), RDiv(SumSq([i \in 1..q.reps |-> Sub(o.splits[k][i], o.mean_score[k])]), R(q.reps)), R("1e-9"), R("1e-9")), o.std_score>>,
       <<"rank-of-scores", \A k \in 1..nc : o.rank_score[k] = 1 + Cardinality({l \in 1..nc : RLt(o.mean_score[k], o.mean_score[l])}), o.rank_score>>,
       <<"train-score", o.has_train = q.train /\ (q.train => \A k \in 1..nc : Close(o.train_score[k], RDiv(Sum([i \in 1..q.reps |-> adj(cand(k)[i].train)]), R(q.reps)), R("1e-9"), R("1e-9"))), "">>,
       <<"number-of-splits", o.n_splits = q.reps, o.n_splits>>,
       <<"parameter-columns", q.grid = "lists" \/ o.cols = o.params, o.cols>>,
       <<"best-score", ruled \/ o.best_score = o.kept[b], o.best_score>>,
       <<"estimator-untouched", o.clean, "">>
     >>
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE IF c.inp.kind = "fn" THEN FnClauses(c)
  ELSE FlatSeq([k \in 1..Len(c.out.runs) |-> RunClauses(c.inp, c.out.runs[k], c.inp.data[k])])
Init == JInit
Next == JNext(Clauses)
=============================================================================
