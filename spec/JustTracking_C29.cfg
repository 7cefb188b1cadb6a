INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Ids = {"i1", "i2"}
  Apps = {"A", "B"}
  Levels = {"trace", "error"}
  Funs = {"plain", "throw", "nest"}
  Ops = {"register", "connect", "invoke", "call", "press"}
PROPERTIES
RunsTracked TrackedRuns OneApp Quiet
