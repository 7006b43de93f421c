SPECIFICATION Spec
CONSTANT Design = "tells"
INVARIANTS Hidden Restored

CHECK_DEADLOCK FALSE
