INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A"}
  FetchChains <- Chains3
  HistChains <- NoChain
  Kinds = {"url", "init", "request", "reject", "two", "twin"}
  Paths = {}
  Slots = {}
  MaxStack = 1
  Versions = {0, 1}
  Ops = {"create", "pageFetch", "fetch"}
PROPERTIES
  LastBrings MovesOwn Heard StackKept
