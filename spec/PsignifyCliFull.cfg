SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANTS OnlyInputs Agree Explicit NothingRequired Emit
CHECK_DEADLOCK FALSE
