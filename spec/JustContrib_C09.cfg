INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Regs = {"cmd", "key"}
  Ids = {"i1", "i2"}
  Cs = {"c1"}
  Batches <- SomeBatches
  Ops = {}
INVARIANT OnePerId
PROPERTIES
  FirstWins
  Told
  OnceTold
  Followed
  Reported
  OtherStays
