INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"plain"}
  Cmds = {TRUE, FALSE}
  Apps = {"A", "B"}
  H = {"h1", "h2"}
  Behs = {"plain", "fr2zh"}
  MaxListen = 2
  Foreign = {}
  Ops = {"set", "cmd", "listen"}
INVARIANTS NothingSaved SavedIsCurrent
PROPERTIES
  SetGet
  HeardOnce
  AppsApart
  Survives
  ForeignStays
