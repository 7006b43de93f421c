SPECIFICATION Spec
CONSTANTS
  MaxOps = 14
  Sim = TRUE
  Bases = {"a", "b"}
  Msgs = {"m", "n"}
  Outs = {"o"}
  Passes = {"p", "q"}
INVARIANTS Unforged Verified Sealed Emit
PROPERTIES SignVerify SealOpen OnlyOutputs ResultOK KeysKept
CHECK_DEADLOCK FALSE
