SPECIFICATION Spec
CONSTANTS MaxOps = 5  MaxDepth = 3  AfterErr = 2
INVARIANTS AcceptsExactly TreeOK Emit
PROPERTIES ErrSticky
CHECK_DEADLOCK FALSE
