INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Backends = {"mem", "page", "stub"}
  Insts = {"A"}
  Keys = {"k1", "k2"}
  Vals = {"v1", "E"}
  P = {"p1", "p2"}
  Plans = {"ret", "undef", "nothing", "throw"}
  Foreign = {}
  Ops = {"set", "nothing", "upd", "begin", "settle", "clear"}
INVARIANTS TypeOK Defaults
PROPERTIES
  OwnOnly
  OneKey
  ErrorKeeps
  BeginQuiet
  Durable
  ForeignStays
