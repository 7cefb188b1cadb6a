INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Items = {"x", "y", "z"}
  MaxLen = 7
  Batches <- SomeBatches
  Ops = {"add", "set", "clear", "reset"}
INVARIANT TypeOK
PROPERTIES
  OneChange
  ThrowKeeps
  InOrder
  Followed
