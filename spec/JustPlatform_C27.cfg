INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Pages = {"mac", "macSafari", "macOld", "windows", "linux", "android", "iphone", "ipad", "chromeos", "unknown"}
  Apps = {"A", "B"}
  Gizmos = {"real", "testNone", "testTrue", "testFalse", "testAsk"}
  Shapes = {"both", "key", "mac", "neither"}
  Ops = {"create", "isMac", "page", "format", "flip"}
INVARIANT Agree
PROPERTIES
KeyChoice AppsApart
