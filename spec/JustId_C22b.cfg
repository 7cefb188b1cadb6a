INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Forms = {"id", "idTest", "justApp", "justTestApp", "all"}
  Draws = {"long", "long2", "short", "short2", "short3", "zero", "half"}
  Names = {"none", "n1", "n2"}
  MaxBuilders = 2
  MaxRuns = 2
INVARIANT Fifteen Distinct
PROPERTIES
  Grows
