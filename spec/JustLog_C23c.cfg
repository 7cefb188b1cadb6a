INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  Cfgs <- MC_Cfgs2
  Keys = {"N", "N:i", "N:p", "N:p:j"}
  NcKeys = {"N:i", "N:p:j", "N:p"}
  Methods = {"error", "info"}
  Levels = {"error"}
  MaxCount = 0
  Ops = {"create", "get", "log", "on"}
PROPERTIES
  Own Respect Apart
