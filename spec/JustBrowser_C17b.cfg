INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  Errs = {"x1", "x2", "x3"}
  H = {"h1", "h2"}
  Behs = {"plain", "raise", "offSelf"}
  MaxErrs = 3
  Ops = {"start", "finish", "clean", "sub", "off", "tamper", "error"}
INVARIANTS Listening OnceEach
PROPERTIES
  Kept
  OncePerError
  CleanedQuiet
