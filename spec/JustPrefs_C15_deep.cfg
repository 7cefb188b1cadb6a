INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Backends = {"page", "stub"}
  Insts = {"A", "B", "C"}
  Keys = {"k1", "k2"}
  Vals = {"v1", "E"}
  P = {"p1"}
  Plans = {"ret", "undef", "throw"}
  Foreign = {"f1"}
  Ops = {"set", "upd", "begin", "settle", "clear", "fault", "other", "reload"}
INVARIANTS TypeOK Defaults
PROPERTIES
  OwnOnly
  OneKey
  ErrorKeeps
  BeginQuiet
  Durable
  ForeignStays
