INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"start", "gate", "log", "fail", "nolog", "astart"}
  Keys = {"x"}
  Begins = {"none", "close"}
  MaxParts = 3
  MaxCreates = 2
  Ops = {"with", "init", "create", "both", "release", "cleanup"}
INVARIANT LastWins
PROPERTIES
  OneLine FailRejects InOrder StartAfterPart Apart
