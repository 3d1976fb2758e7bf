INIT Init
NEXT Next
INVARIANTS TypeOk Agreement Incomplete SettledMeansSo Silent Expected
PROPERTY Settled
CHECK_DEADLOCK FALSE
