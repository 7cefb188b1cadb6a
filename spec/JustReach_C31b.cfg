INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A", "B"}
  FetchChains <- Chains2
  HistChains <- NoChain
  Kinds = {"init", "two"}
  Paths = {}
  Slots = {}
  MaxStack = 1
  Versions = {0, 1}
  Ops = {"create", "pageFetch", "fetch"}
PROPERTIES
  LastBrings MovesOwn Heard StackKept
