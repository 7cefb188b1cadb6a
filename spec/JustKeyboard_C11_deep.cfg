INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Ids = {"i1", "i2", "i3"}
  Handled = {"i1", "i2"}
  Keys = {"k1", "k2", "k3"}
  Ops = {}
  Behs = {"plain"}
  Pairs <- SomePairs
INVARIANT TypeOK
PROPERTIES
  FirstOnly
  Reported
