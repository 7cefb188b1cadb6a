INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A", "B"}
  FetchChains <- NoChain
  HistChains <- HistsOfTwo
  Kinds = {}
  Paths = {"p1"}
  Slots = {"l"}
  MaxStack = 2
  Versions = {0}
  Ops = {"create", "listen", "unlisten", "push", "replace", "back", "forward"}
PROPERTIES
  LastBrings MovesOwn Heard StackKept
