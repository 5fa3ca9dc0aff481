SPECIFICATION Spec
INVARIANT WF
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
