INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"obj"}
  Contents = {"a", "b"}
  Inits = {"a"}
  H = {"h1", "h2", "h3"}
  Behs = {"plain", "offSelf", "offNext", "onNext", "again"}
  Ops = {"set", "sub", "dup", "off", "stale"}
INVARIANT TypeOK
PROPERTIES
  ExactlyOnce
  NoSelfChange
  OnlyOwn
  OffExact
  NoneSkipped
  ThrowKeeps
  ResetRestores
