INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A", "B"}
  Presets = {"real", "test"}
  Kbs = {FALSE}
  Earlies = {"none", "own"}
  OptFetches = {FALSE}
  Lates = {FALSE}
  Hists = {TRUE, FALSE}
  Doubles = {"none", "all"}
  Paths = {"p1"}
  Kinds = {"init"}
  Ops = {"create", "fetch", "push", "pref"}
INVARIANT PrefPlace
PROPERTIES
  Precedence PageMoves
