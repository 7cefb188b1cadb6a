INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
Apps = {"A", "B"}
Keys = {"k1", "k2"}
Vals = {"v1", "v2"}
Langs = {"l1", "l2"}
Cmds = {"c1"}
Routes = {"r1"}
Ops = {"create", "pref", "clear", "lang", "unlang"}
PROPERTIES
OwnApp
OwnHandlers
Created
Fresh
