INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Forms = {"id", "idTest", "justApp", "justTestApp", "preset", "presetTest", "all"}
  Draws = {"long", "long2", "short", "short2", "short3", "zero", "tiny", "top", "half"}
  Names = {"none", "n1", "n2"}
  MaxBuilders = 1
  MaxRuns = 2
INVARIANT Fifteen Distinct
PROPERTIES
  Grows
