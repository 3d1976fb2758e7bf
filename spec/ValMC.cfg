INIT Init
NEXT Next
INVARIANTS Nested OneRoot NoTwice Same Waiting Back ReadSame Expected
CHECK_DEADLOCK FALSE
