INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"start", "gate", "log", "fail"}
  Keys = {"x"}
  Begins = {"none", "close"}
  MaxParts = 2
  MaxCreates = 3
  Ops = {"with", "init", "create", "both", "release", "cleanup"}
INVARIANT LastWins
PROPERTIES
  OneLine FailRejects InOrder StartAfterPart Apart
