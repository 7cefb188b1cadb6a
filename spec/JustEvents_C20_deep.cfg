INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  Evs = {"e1", "e2"}
  Lists = {"l1", "l2"}
  Behs = {"throw", "drop", "add", "emit"}
  Args = {"none", "many"}
  Ops = {"on", "once", "off", "clear", "emit"}
INVARIANT OnceEach
PROPERTIES
  NeverThrows
  InOrder
  Logged
  FailuresStay
  AppsApart
