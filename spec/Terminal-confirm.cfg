SPECIFICATION Spec
CONSTANT Design = "confirm"
INVARIANTS Hidden Restored

CHECK_DEADLOCK FALSE
