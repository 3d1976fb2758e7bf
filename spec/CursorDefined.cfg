INIT Init
NEXT Next
INVARIANT TellDefined
CHECK_DEADLOCK FALSE
