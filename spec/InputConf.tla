----------------------------- MODULE InputConf -----------------------------
(* A faulty input is refused with an exception and leaves no fitted model;   *)
(* an admissible input gives the same model however it is represented.       *)
EXTENDS TraceBase, Input
Clauses(c) ==
  LET q == c.inp
      o == c.out
  IN CASE q.what = "fault" -> << <<"fault-in-scope", q.kind \in Faults(q.est), "">>,
                                 <<"refused", c.err = "" /\ o.refused, c.err>>,
                                 <<"nothing-fitted", c.err = "" /\ ~o.fitted, "">> >>
       [] q.what = "option" -> << <<"option-in-scope", q.kind \in Options(q.est), "">>,
                                  <<"refused", c.err = "" /\ o.refused, c.err>> >>
       [] q.what = "form" -> IF c.err # "" THEN <<NoErr(c)>>
                             ELSE << <<"same-model", Close(o.v, o.ref, IF q.kind = "float32" THEN R("1e-3") ELSE R("1e-6"), IF q.kind = "float32" THEN R("1e-3") ELSE R("1e-6")), <<o.v, o.ref>>>>,
                                     <<"inputs-untouched", o.clean, "">> >>
Init == JInit
Next == JNext(Clauses)
=============================================================================
