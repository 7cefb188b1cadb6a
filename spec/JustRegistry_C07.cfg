INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Strs = {"k1", "k2", "k3"}
  Syms = {"s1"}
  Vals = {"v1", "v2"}
  Inits = {"empty", "one"}
  Batches <- SomeBatches
  Ops = {"put", "del", "add", "reset"}
INVARIANT Coherent
PROPERTIES
  AtMostOnce
  ThrowKeeps
  AllApplied
  OthersStay
