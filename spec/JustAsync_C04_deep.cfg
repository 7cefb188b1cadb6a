INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"obj", "prim"}
  Contents = {"a", "b"}
  P = {"p1", "p2", "p3"}
  H = {"h1"}
  Behs = {"plain"}
  Plans = {"ret", "in", "nothing", "void", "rej"}
  Ops = {"set", "reset", "sub", "off", "begin", "settle", "both"}
INVARIANT TypeOK
PROPERTIES
  BeginQuiet
  SettleOnce
  RejectKeeps
  OthersStay
  BothLast
