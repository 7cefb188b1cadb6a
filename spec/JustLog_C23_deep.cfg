INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A", "B"}
  Cfgs <- MC_Cfgs3
  Keys = {"N", "N:i"}
  NcKeys = {"N:p:i"}
  Methods = {"error", "custom", "info", "debug"}
  Levels = {"error", "planck"}
  MaxCount = 1
  Ops = {"create", "get", "log", "on", "count"}
PROPERTIES
  Own Respect Apart
