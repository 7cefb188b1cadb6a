INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"obj", "prim", "fun"}
  Contents = {"a", "b", "U"}
  Inits = {"a", "U"}
  H = {"h1", "h2"}
  Behs = {"plain", "setA", "resetIn"}
  Ops = {"set", "same", "ret", "nest", "in", "void", "reset", "sub", "off"}
INVARIANT TypeOK
PROPERTIES
  ExactlyOnce
  NoSelfChange
  NoGap
  OnlyOwn
  OffExact
  NoneSkipped
  ThrowKeeps
  ResetRestores
