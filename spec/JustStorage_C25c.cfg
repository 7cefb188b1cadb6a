INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
Stubs = {"s1"}
Keys = {"k1", "k2", "k3", "k4"}
Vals = {"v1", "v2", "v3"}
Kinds = {"local"}
Answers = {"null"}
Most = 0
Ons = {"s1"}
Ops = {"get", "set", "remove", "clear", "key", "length", "enum", "drain"}
PROPERTIES
OnlyItself
OtherKeys
StubbedStops
ReadsLast
