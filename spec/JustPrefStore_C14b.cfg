INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Backends = {"mem", "stub"}
  Defaults = {"obj"}
  Stores = {"s1", "s2", "s3"}
  Vals = {"a", "zero", "empty", "D"}
  P = {}
  Plans = {"ret", "nothing", "void", "in", "inRet", "throw", "inThrow"}
  Ops = {"set", "upd", "raw", "clear", "scribble"}
INVARIANTS TypeOK Shared
PROPERTIES
  OwnKey
  FailKeeps
  GivenShown
