INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  Routes = {"root", "r1", "r2"}
  Slots = {"t1", "t2"}
  Behs = {"plain", "throw", "off", "go", "renew"}
  Ops = {"register", "unregister", "stale", "clear", "config", "go", "stray", "home"}
INVARIANT OneRoutePerSlot
PROPERTIES
  StaleHarmless
  Owned
  Navigates
  ConfigStays
  AppsApart
