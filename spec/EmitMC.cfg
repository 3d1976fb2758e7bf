INIT Init
NEXT Next
INVARIANTS Balanced Kept Emitted
PROPERTY Grows
CHECK_DEADLOCK FALSE
