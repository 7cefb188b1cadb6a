INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A", "B"}
  Cells = {"c1"}
  Loggers = {"own", "sub", "loud", "other", "page"}
  Levels = {"info", "trace", "planck"}
  Vals = {"a", "b", "c"}
  H = {"h1", "h2"}
  Behs = {"plain", "setA"}
  Ops = {"create", "set", "ret", "nest", "in", "settle", "void", "throw", "reset", "sub", "dup", "off"}
PROPERTIES OwnLog Chain Silent CellsApart
