INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
  Apps = {"A", "B"}
  Locales = {"en", "de"}
  Defaults = {"en", "de", "unset"}
  Catalogs = {"none", "some", "all"}
  Caches = {"none", "own", "shared"}
  Ids = {"m1", "m2"}
  Ops = {"create", "msg", "num"}
INVARIANT CacheGiven
PROPERTIES
OwnLocale OwnErrors AppsApart
