INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"browser"}
  Cmds = {TRUE}
  Apps = {"A"}
  H = {"h1"}
  Behs = {"plain", "fr2zh", "zh2en"}
  MaxListen = 3
  Foreign = {"f1"}
  Ops = {"set", "cmd", "clear", "listen", "nav", "other", "reload"}
INVARIANTS NothingSaved SavedIsCurrent
PROPERTIES
  SetGet
  HeardOnce
  AppsApart
  Survives
  ForeignStays
