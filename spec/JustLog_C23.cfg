INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  Cfgs <- MC_Cfgs1
  Keys = {"N", "N:i"}
  NcKeys = {"N:p:j"}
  Methods = {"critical", "error", "warn", "notice", "custom", "info", "debug", "trace", "planck"}
  Levels = {"warn", "trace"}
  MaxCount = 1
  Ops = {"create", "get", "log", "on", "count"}
PROPERTIES
  Own Respect Apart
