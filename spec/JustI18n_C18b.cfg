INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"plain"}
  Cmds = {TRUE}
  Apps = {"A"}
  H = {"h1", "h2"}
  Behs = {"plain", "fr2zh", "zh2en"}
  MaxListen = 3
  Foreign = {}
  Ops = {"set", "cmd", "listen"}
INVARIANTS NothingSaved SavedIsCurrent
PROPERTIES
  SetGet
  HeardOnce
  AppsApart
  Survives
  ForeignStays
