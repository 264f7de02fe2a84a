SPECIFICATION Spec
CONSTANTS N = 5 V = 4
INVARIANT TypeOK Monotone SelectedStable SelectedLargest NoneMeansSparsest
CHECK_DEADLOCK FALSE
