SPECIFICATION Spec
VIEW View
INVARIANT Consistent
INVARIANT Direction
PROPERTY Frame
PROPERTY Independent
CHECK_DEADLOCK FALSE
