SPECIFICATION Spec
INVARIANTS Safe Honest Emits
PROPERTY Ends
CHECK_DEADLOCK FALSE
