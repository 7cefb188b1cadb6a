INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
Apps = {"A", "B"}
Keys = {"k1"}
Vals = {"v1"}
Langs = {"l1"}
Cmds = {"c1"}
Routes = {"r1", "r2"}
Ops = {"create", "route", "unroute", "unroutes", "go", "emit", "emitThrow", "log", "pref"}
PROPERTIES
OwnApp
OwnHandlers
Created
Fresh
