INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
Apps = {"A"}
Kinds = {"plain", "keys", "bare", "memory", "lang", "full", "mine", "mineBare"}
Vals = {"v1", "v2"}
Langs = {"l1"}
Ops = {"up", "palette", "replace", "call", "pkg", "press", "setLanguage"}
INVARIANTS
Brought
Runs
Hidden
PROPERTIES
Kept
OneApp
OwnOnly
Replaced
