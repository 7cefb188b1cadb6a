INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Backends = {"mem", "stub"}
  Defaults = {"obj", "flat"}
  Stores = {"s1", "s2", "s3"}
  Vals = {"a", "null", "D"}
  P = {"p1"}
  Plans = {"ret", "nothing", "void", "in", "inRet", "throw", "inThrow"}
  Ops = {"set", "upd", "begin", "settle", "raw", "clear", "scribble"}
INVARIANTS TypeOK Shared
PROPERTIES
  OwnKey
  FailKeeps
  GivenShown
