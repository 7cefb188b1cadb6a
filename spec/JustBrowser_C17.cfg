INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A", "B"}
  Errs = {"x1", "x2"}
  H = {"h1"}
  Behs = {"plain"}
  MaxErrs = 2
  Ops = {"start", "finish", "clean", "sub", "off", "tamper", "error"}
INVARIANTS Listening OnceEach
PROPERTIES
  Kept
  OncePerError
  CleanedQuiet
