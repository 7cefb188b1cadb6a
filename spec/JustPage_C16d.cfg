INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
Apps = {"A", "B"}
Keys = {"k1"}
Vals = {"v1"}
Langs = {"l1"}
Cmds = {"c1"}
Routes = {"r1"}
Ops = {"all", "begin", "finish", "together", "pref", "clear", "lang", "handler", "run", "palette", "show", "route", "go"}
PROPERTIES
OwnApp
OwnHandlers
Created
Fresh
