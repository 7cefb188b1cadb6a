INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Kinds = {"obj", "prim"}
  Contents = {"a", "b"}
  P = {"p1", "p2"}
  H = {"h1"}
  Behs = {"plain", "setA"}
  Plans = {"ret", "in", "nothing", "void", "rej", "inRej"}
  Ops = {"set", "in", "sub", "off", "begin", "settle", "both"}
INVARIANT TypeOK
PROPERTIES
  BeginQuiet
  SettleOnce
  RejectKeeps
  OthersStay
  BothLast
