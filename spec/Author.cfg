SPECIFICATION Spec
INVARIANT WellFormed
INVARIANT Shown
CHECK_DEADLOCK FALSE
