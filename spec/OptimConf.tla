----------------------------- MODULE OptimConf -----------------------------
EXTENDS Optim
Init == JInit
Next == JNext(OptimClauses)
=============================================================================
