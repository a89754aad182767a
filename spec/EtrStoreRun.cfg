SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT OwnOK
PROPERTY Frame
PROPERTY Conserved
PROPERTY Grows
CHECK_DEADLOCK FALSE
