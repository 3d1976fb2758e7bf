INIT Init
NEXT Next
INVARIANTS DepthOk AheadOk NoPanic PeekNext OneElement SkipExact Emitted
PROPERTY Forward
CHECK_DEADLOCK FALSE
