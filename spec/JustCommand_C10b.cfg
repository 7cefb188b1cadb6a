INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Decl <- DeclMacInfo
  Kbd <- Kbd2
  Funs = {"f1", "f2"}
  ArgLists <- SomeArgs
  Ops = {"call", "define", "connect"}
INVARIANT Contributed
PROPERTIES
  Dispatch
  OthersStay
