INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"browser"}
  Cmds = {TRUE, FALSE}
  Apps = {"A", "B"}
  H = {"h1"}
  Behs = {"plain", "fr2zh", "zh2en"}
  MaxListen = 1
  Foreign = {"f1"}
  Ops = {"set", "cmd", "clear", "listen", "nav", "other", "reload"}
INVARIANTS NothingSaved SavedIsCurrent
PROPERTIES
  SetGet
  HeardOnce
  AppsApart
  Survives
  ForeignStays
