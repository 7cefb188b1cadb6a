INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A", "B"}
  Cfgs <- MC_Cfgs2
  Keys = {"N", "N:i"}
  NcKeys = {"N:i", "N:p:i"}
  Methods = {"info", "trace"}
  Levels = {"error"}
  MaxCount = 1
  Ops = {"create", "get", "log", "level"}
PROPERTIES
  Own Respect Apart
