INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Backends = {"page", "stub"}
  Insts = {"A", "B"}
  Keys = {"k1", "k2"}
  Vals = {"v1"}
  P = {"p1"}
  Plans = {"ret", "undef"}
  Foreign = {}
  Ops = {"set", "upd", "begin", "settle", "clear", "fault", "reload"}
INVARIANTS TypeOK Defaults
PROPERTIES
  OwnOnly
  OneKey
  ErrorKeeps
  BeginQuiet
  Durable
  ForeignStays
