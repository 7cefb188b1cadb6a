INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A", "B"}
  Cells = {"c1", "c2"}
  Loggers = {"own", "sub", "other", "page"}
  Levels = {"trace", "planck"}
  Vals = {"a", "b"}
  H = {"h1"}
  Behs = {"plain", "setA"}
  Ops = {"create", "set", "reset", "sub", "off"}
PROPERTIES OwnLog Chain Silent CellsApart
