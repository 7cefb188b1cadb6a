INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  Evs = {"e1"}
  Lists = {"l1", "l2", "l3"}
  Behs = {"plain", "throw", "drop", "add"}
  Args = {"none", "one"}
  Ops = {"on", "once", "off", "clear", "emit"}
INVARIANT OnceEach
PROPERTIES
  NeverThrows
  InOrder
  Logged
  FailuresStay
  AppsApart
