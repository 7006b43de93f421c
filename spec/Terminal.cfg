SPECIFICATION Spec
CONSTANT Design = "good"
INVARIANTS Hidden Restored Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
