INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Ids = {"i1", "i2", "i3"}
  Funs = {"f1", "f2", "fT", "fI", "fR", "fC"}
  ArgLists <- SomeArgs
  Ops = {"register", "invoke"}
INVARIANT OnePerId
PROPERTIES
  Latest
  Unknown
  OthersStay
