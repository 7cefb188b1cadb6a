INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"obj", "prim"}
  Contents = {"b"}
  Inits = {"a"}
  H = {"h1", "h2", "h3"}
  Behs = {"plain", "setA", "resetIn"}
  Ops = {"set", "in", "reset", "sub", "off"}
INVARIANT TypeOK
PROPERTIES
  ExactlyOnce
  NoSelfChange
  OnlyOwn
  OffExact
  NoneSkipped
  ThrowKeeps
  ResetRestores
