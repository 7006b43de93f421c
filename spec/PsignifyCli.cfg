SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANTS OnlyInputs Agree Explicit NothingRequired Emit
CHECK_DEADLOCK FALSE
