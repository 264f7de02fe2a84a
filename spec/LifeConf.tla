----------------------------- MODULE LifeConf ------------------------------
(* Step-by-step validation of recorded estimator histories.                *)
EXTENDS TraceBase
INSTANCE Lifecycle WITH Params <- {"P1", "P2"}, Data <- {"D1", "D2"}
Key(f) == f.p \o f.d
Same(a, b) == /\ DOMAIN a = DOMAIN b
              /\ \A k \in DOMAIN a : a[k].s = b[k].s /\ (a[k].s # "" \/ Close(a[k].v, b[k].v, R("1e-9"), R("1e-9")))
StepClauses(q, o, sts, k) ==
  LET st == sts[k]
      r == o.steps[k]
  IN << <<"params-as-given", r.params = o.params[st.par], <<k, r.params>>>>,
        <<"history-independent",
          IF st.fit = NoFit THEN DOMAIN r.attrs = {} ELSE Same(r.attrs, o.fresh[Key(st.fit)]),
          <<k, st, DOMAIN r.attrs>>>>,
        <<"inputs-untouched", r.inputs = o.inputs, <<k>>>>,
        <<"fit-returns-self", r.self, <<k>>>>,
        <<"score-of-state", r.score = <<>> \/ (Has(o.scores, Key(st.fit)) /\ Close(r.score, o.scores[Key(st.fit)], R("1e-9"), R("1e-9"))), <<k, r.score>>>> >>
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE LET q == c.inp
           sts == Run(New("P1"), q.ops, 1)
       IN FlatSeq([k \in 1..Len(q.ops) |-> StepClauses(q, c.out, sts, k)])
Init == JInit
Next == JNext(Clauses)
=============================================================================
