INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Decl <- DeclKey
  Kbd <- Kbd2
  Funs = {"f1", "f2", "fB", "fD", "fN"}
  ArgLists <- SomeArgs
  Ops = {"call", "define", "connect", "register", "format"}
INVARIANT Contributed
PROPERTIES
  Dispatch
  OthersStay
