----------------------------- MODULE AdmmTrace -----------------------------
(***************************************************************************)
(* Trace validation: the reported history of a real run is replayed        *)
(* against the Admm state machine, one transition per reported iteration,  *)
(* followed by the checks on how the run ended.                            *)
(***************************************************************************)
EXTENDS Admm

VARIABLES x, k, prob
vars == <<case, verdict, x, k, prob>>

Cs == Cases[case]
Q == Cs.inp
O == Cs.out
Has0 == Q.model \in {"TGL", "KTGL"}        \* these report the starting point first
H(i) == O.hist[IF Has0 THEN i + 1 ELSE i]
NoHist == O.hist = <<>>                     \* estimators that do not keep their history
NIt == IF NoHist THEN O.n_iter ELSE IF Has0 THEN Len(O.hist) - 1 ELSE Len(O.hist)
Exact == ~(Has(Q, "psi") /\ Q.psi = "node") /\ ~(Has(Q, "phi") /\ Q.phi = "node")

Near(a, b) == Close(a, b, R("1e-7"), R("1e-6"))

Report(bad) == EmitJson(Env("VP_OUT"), [id |-> Cs.id, bad |-> bad])

Init == JInit /\ x = <<>> /\ prob = <<>> /\ k = -1

Start ==
  /\ verdict = "pending" /\ k = -1
  /\ IF Cs.err # "" THEN /\ Report(<<NoErr(Cs)>>) /\ verdict' = "violates" /\ UNCHANGED <<case, x, k, prob>>
     ELSE /\ prob' = Force(Problem(Q))
          /\ x' = AdmmInit(Q, prob')
          /\ LET z == x'.Z0
                 bad == Try(FailedOf(<<
                   <<"history-length", NIt >= 1 /\ NIt <= Q.max_iter, NIt>>,
                   <<"start-objective", ~Has0 \/ NoHist \/ ~RIsFinite(Obj(prob', z, <<>>)) \/ Near(O.hist[1].obj, Obj(prob', z, <<>>)),
                     IF Has0 /\ ~NoHist THEN <<O.hist[1].obj, Obj(prob', z, <<>>)>> ELSE "">> >>))
             IN IF bad = <<>> THEN verdict' = "pending" ELSE Report(bad) /\ verdict' = "violates"
          /\ k' = 0 /\ UNCHANGED case

EntryBad(h, c, i) ==
  FailedOf(<<
    <<"primal-residual", ~Exact \/ Near(h.rnorm, c.rnorm), <<i, h.rnorm, c.rnorm>>>>,
    <<"dual-residual", ~Exact \/ Near(h.snorm, c.snorm), <<i, h.snorm, c.snorm>>>>,
    <<"primal-tolerance", ~Exact \/ Near(h.e_pri, c.e_pri), <<i, h.e_pri, c.e_pri>>>>,
    <<"dual-tolerance", ~Exact \/ Near(h.e_dual, c.e_dual), <<i, h.e_dual, c.e_dual>>>>,
    <<"objective", ~Exact \/ IF Q.compobj THEN \E j \in 1..Len(c.obj) : Near(h.obj, c.obj[j]) \/ (~RIsFinite(c.obj[j]) /\ ~RIsFinite(h.obj))
                             ELSE RIsNaN(h.obj), <<i, h.obj, c.obj>>>> >>)

Step ==
  /\ verdict = "pending" /\ k >= 0 /\ k < NIt
  /\ x' = IF Exact THEN AdmmStep(Q, prob, x) ELSE x
  /\ k' = k + 1
  /\ LET bad == IF NoHist THEN <<>> ELSE Try(EntryBad(H(k + 1), x'.c, k + 1))
     IN IF bad = <<>> THEN verdict' = "pending" ELSE Report(bad) /\ verdict' = "violates"
  /\ UNCHANGED <<case, prob>>

StopAt(i) == Has(O, "stop_at") /\ RLt(RDiv(Abs(Sub(H(i).obj, O.stop_at)), Abs(O.stop_at)), O.stop_when)
Done(i) == IF NoHist THEN Satisfied(x.c) ELSE Satisfied(H(i)) \/ StopAt(i)

EndBad ==
  FailedOf(<<
    <<"n-iter", O.n_iter = NIt, <<O.n_iter, NIt>>>>,
    <<"stops-at-first-satisfied-test", NoHist \/ \A i \in 1..(NIt - 1) : ~Done(i), "">>,
    <<"ends-satisfied-or-exhausted", (NoHist /\ ~Exact) \/ Done(NIt) \/ NIt = Q.max_iter, NIt>>,
    \* the iterative node operator has a budget of its own and may warn as well
    <<"warns-iff-not-satisfied", IF Exact THEN O.warned = ~Done(NIt) ELSE NoHist \/ Done(NIt) \/ O.warned, <<O.warned, Done(NIt)>>>>,
    \* the same run with exactly that many iterations allowed, and with one less
    <<"exact-budget", ~Exact \/ (O.exact.n = NIt /\ O.exact.warned = O.warned), <<O.exact, NIt>>>>,
    <<"one-iteration-less", ~Exact \/ NIt = 1 \/ (O.less.n = NIt - 1 /\ O.less.warned), <<O.less, NIt>>>>,
    <<"returned-precision", ~Exact \/ Close(O.K, x.Z0, R("1e-6"), R("1e-6")), "">>,
    <<"returned-latent", ~Exact \/ ~prob.lat \/ Close(O.L, x.W0, R("1e-6"), R("1e-6")), "">>,
    <<"budget-prefix", \* a run with a smaller budget reports the same first iterations
       ~Exact \/ NoHist \/ \A i \in 1..Len(O.short) : \A f \in {"rnorm", "snorm", "e_pri", "e_dual"} :
          ~Has(O.hist[i], f) \/ Close(O.short[i][f], O.hist[i][f], R("1e-12"), R("1e-9"))
          \/ (RIsNaN(O.short[i][f]) /\ RIsNaN(O.hist[i][f])), "">>,
    <<"budget-count", Q.via = "class" \/ NoHist \/ (O.short_n = Q.cut /\ Len(O.short) = (IF Has0 THEN Q.cut + 1 ELSE Q.cut)) \/ Q.cut >= NIt \/ ~Exact, <<O.short_n, Q.cut>>>>,
    <<"update-rule", \A i \in 1..Len(O.rule) : Close(O.rule[i].out, NextRho(O.rule[i], O.rule[i].rho, O.rule[i].r, O.rule[i].s), R("1e-12"), R("1e-12")), "">> >>)

Finish ==
  /\ verdict = "pending" /\ k >= 0 /\ k >= NIt
  /\ LET bad == Try(EndBad)
     IN Report(bad) /\ verdict' = IF bad = <<>> THEN "conforms" ELSE "violates"
  /\ UNCHANGED <<case, x, k, prob>>

Next == Start \/ Step \/ Finish
=============================================================================
