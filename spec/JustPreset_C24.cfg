INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  Presets = {"real", "test"}
  Kbs = {TRUE, FALSE}
  Earlies = {"none", "own", "page"}
  OptFetches = {TRUE, FALSE}
  Lates = {TRUE, FALSE}
  Hists = {TRUE, FALSE}
  Doubles = {"none", "local", "all"}
  Paths = {"p1"}
  Kinds = {"url", "init", "request", "reject"}
  Ops = {"create", "fetch", "push", "pref"}
INVARIANT PrefPlace
PROPERTIES
  Precedence PageMoves
