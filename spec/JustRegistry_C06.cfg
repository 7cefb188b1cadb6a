INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Strs = {"k1", "k2"}
  Syms = {"s1", "s2"}
  Vals = {"v1", "F", "U"}
  Inits = {"empty", "one"}
  Batches <- NoBatch
  Ops = {"put", "del", "swap", "merge", "only", "reset"}
INVARIANT Coherent
PROPERTIES
  AtMostOnce
  ThrowKeeps
  AllApplied
  OthersStay
