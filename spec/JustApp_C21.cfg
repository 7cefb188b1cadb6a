INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"plain", "async", "start", "astart", "merge", "void", "fail", "failStart", "log", "nolog", "gate"}
  Keys = {"x", "y"}
  Begins = {"none", "plain", "close", "fail"}
  MaxParts = 2
  MaxCreates = 1
  Ops = {"with", "create", "release", "cleanup"}
INVARIANT LastWins
PROPERTIES
  OneLine FailRejects InOrder StartAfterPart Apart
