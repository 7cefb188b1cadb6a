INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
Apps = {"A", "B"}
Kinds = {"bare", "full", "mine"}
Vals = {"v1"}
Langs = {"l1"}
Ops = {"up", "palette", "call", "pkg"}
INVARIANTS
Brought
Runs
Hidden
PROPERTIES
Kept
OneApp
OwnOnly
Replaced
