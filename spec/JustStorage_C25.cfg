INIT Init
NEXT Next
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT EmitNext
CONSTANTS
Stubs = {"s1", "s2"}
Keys = {"k1", "k2", "k3"}
Vals = {"v1"}
Kinds = {"local"}
Answers = {"null"}
Most = 0
Ons = {"s1", "s2"}
Ops = {"get", "set", "remove", "clear", "key", "length", "enum", "drain"}
PROPERTIES
OnlyItself
OtherKeys
StubbedStops
ReadsLast
