INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"obj"}
  Contents = {"a", "b", "c", "U"}
  Inits = {"a", "U"}
  H = {"h1", "h2"}
  Behs = {"plain", "setA"}
  Ops = {"set", "ret", "in", "nothing", "throw", "reset", "poke", "late", "sub"}
INVARIANT TypeOK
PROPERTIES
  ExactlyOnce
  NoSelfChange
  OnlyOwn
  OffExact
  NoneSkipped
  ThrowKeeps
  ResetRestores
