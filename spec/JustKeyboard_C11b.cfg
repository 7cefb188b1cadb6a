INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Ids = {"i1", "i3"}
  Handled = {"i1"}
  Keys = {"k1", "k2"}
  Ops = {}
  Behs = {"plain", "throw", "drop", "add", "move"}
  Pairs <- FewPairs
INVARIANT TypeOK
PROPERTIES
  FirstOnly
  Reported
