INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
Stubs = {"s1"}
Keys = {"k1", "k2"}
Vals = {"v1"}
Kinds = {"local", "session"}
Answers = {"null", "text", "zero", "throw", "undef"}
Most = 1
Ons = {"local", "session", "via"}
Ops = {"get", "set", "remove", "clear", "key", "length", "enum", "drain"}
PROPERTIES
OnlyItself
OtherKeys
StubbedStops
ReadsLast
