INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  FetchChains <- NoChain
  HistChains <- HistChains2
  Kinds = {}
  Paths = {"p1", "p2"}
  Slots = {"k", "l"}
  MaxStack = 3
  Versions = {0}
  Ops = {"create", "listen", "unlisten", "push", "replace", "back", "forward"}
PROPERTIES
  LastBrings MovesOwn Heard StackKept
