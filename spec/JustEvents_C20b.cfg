INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  Evs = {"e1", "e2"}
  Lists = {"l1", "l2"}
  Behs = {"throw", "emit", "off"}
  Args = {"many"}
  Ops = {"on", "once", "off", "clear", "emit"}
INVARIANT OnceEach
PROPERTIES
  NeverThrows
  InOrder
  Logged
  FailuresStay
  AppsApart
