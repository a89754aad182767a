SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT ShapeOK
INVARIANT ViewOK
PROPERTY Frame
PROPERTY Keeps
PROPERTY Goals
CHECK_DEADLOCK FALSE
