SPECIFICATION Spec
INVARIANT Picture
INVARIANT Links
INVARIANT Reached
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
