SPECIFICATION Spec
CONSTANT Design = "leaves"
INVARIANTS Hidden Restored

CHECK_DEADLOCK FALSE
