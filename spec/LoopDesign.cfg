SPECIFICATION Spec
CONSTANT MaxBudget = 6
INVARIANT CountsIterations StopsAtFirst WarnsIff EndsOk
PROPERTY Terminates
CHECK_DEADLOCK FALSE
