SPECIFICATION Spec
INVARIANTS Exactly Emit
PROPERTY Decides
CHECK_DEADLOCK FALSE
