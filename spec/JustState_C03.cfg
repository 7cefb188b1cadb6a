INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"obj", "prim"}
  Contents = {"a", "b", "c", "U"}
  Inits = {"a", "U"}
  H = {"h1"}
  Behs = {"plain"}
  Ops = {"set", "ret", "nest", "in", "void", "nothing", "throw", "reset", "sub", "off"}
INVARIANT TypeOK
PROPERTIES
  ExactlyOnce
  NoSelfChange
  NoGap
  OnlyOwn
  OffExact
  NoneSkipped
  ThrowKeeps
  ResetRestores
