----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Conformance of recorded observations.  Every case is an initial state;  *)
(* the Judge step evaluates the clauses of the specification on it and     *)
(* writes the verdict.  A clause is <<name, holds, detail>>.               *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

Cases == LoadJson(Env("VP_TRACE"))

VARIABLES case, verdict

FailedOf(cl) == SelectSeq(cl, LAMBDA x : ~x[2])
NoErr(c) == <<"no-exception", c.err = "", c.err>>

JInit == case \in 1..Len(Cases) /\ verdict = "pending"

JNext(Clauses(_)) ==
  /\ verdict = "pending"
  /\ LET b == Try(FailedOf(Clauses(Cases[case])))
     IN /\ verdict' = IF b = <<>> THEN "conforms" ELSE "violates"
        /\ EmitJson(Env("VP_OUT"), [id |-> Cases[case].id, bad |-> b])
  /\ UNCHANGED case

\* Seq helpers
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlatSeq(Tail(ss))
MapSeq(f(_), s) == [k \in 1..Len(s) |-> f(s[k])]
FoldLeft(op(_, _), acc, s) ==
  LET RECURSIVE Fl(_, _)
      Fl(a, k) == IF k > Len(s) THEN a ELSE Fl(op(a, s[k]), k + 1)
  IN Fl(acc, 1)
RSumSet(f(_), S) ==
  LET RECURSIVE Rs(_)
      Rs(Q) == IF Q = {} THEN R(0) ELSE LET x == CHOOSE x \in Q : TRUE IN Add(f(x), Rs(Q \ {x}))
  IN Rs(S)
Has(r, k) == k \in DOMAIN r
=============================================================================
