INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
Apps = {"A", "B", "C"}
Keys = {"k1"}
Vals = {"v1"}
Langs = {"l1"}
Cmds = {"c1"}
Routes = {"r1"}
Ops = {"create", "all", "begin", "finish", "together", "pref", "go"}
PROPERTIES
OwnApp
OwnHandlers
Created
Fresh
