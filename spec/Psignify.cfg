SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Sim = FALSE
  Bases = {"a"}
  Msgs = {"m"}
  Outs = {"o"}
  Passes = {"p"}
VIEW View
INVARIANTS Unforged Verified Sealed
PROPERTIES SignVerify SealOpen OnlyOutputs ResultOK KeysKept
CHECK_DEADLOCK FALSE
