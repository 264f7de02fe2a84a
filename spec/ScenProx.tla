------------------------------ MODULE ScenProx ------------------------------
EXTENDS Num, Integers, Sequences, TLC
Ops == {"soft", "soft_od", "soft_od_3d", "soft_vec", "block", "block_sym", "linf", "linf_1d", "logdet", "logdet_3d", "logdet_ma",
        "trace", "trace_3d", "laplacian", "node", "pair_laplacian", "pair_l1", "pair_l2", "pair_linf", "pair_node",
        "fl_gen", "fl_loop", "fl_sym", "soft_vec1", "norm_l1", "norm_l1_od", "norm_matrix_l1", "norm_vector_p"}
VARIABLE s
\* "micro": entries and thresholds of order 1e-7 (where the operator is scale free and exact)
Space == {x \in [op : Ops, d : {2, 3, 4, 7}, T : {1, 2, 3, 6}, pat : {"rand", "ties", "zerocol", "zero", "int", "big", "tiny", "micro", "onerow"},
                  lam : {"zero", "small", "mid", "huge", "pertime"}] :
            /\ x.lam = "zero" => x.op \notin {"logdet", "logdet_3d", "logdet_ma"}
            /\ x.pat = "micro" => x.op \notin {"node", "pair_node", "logdet", "logdet_3d", "logdet_ma"}
            /\ x.op \in {"node", "pair_node"} => x.T * x.d <= 12}
Init == s \in Space
Next == FALSE /\ UNCHANGED s
Emit == EmitJson(Env("VP_OUT"), s)
=============================================================================
