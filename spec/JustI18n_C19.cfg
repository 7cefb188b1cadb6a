INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"browser"}
  Cmds = {TRUE}
  Apps = {"A", "B"}
  H = {"h1"}
  Behs = {"plain", "fr2zh"}
  MaxListen = 1
  Foreign = {}
  Ops = {"set", "cmd", "clear", "listen", "nav", "reload"}
INVARIANTS NothingSaved SavedIsCurrent
PROPERTIES
  SetGet
  HeardOnce
  AppsApart
  Survives
  ForeignStays
