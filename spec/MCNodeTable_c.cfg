CONSTANTS MaxSize = 7 MaxStack = 0 Slots = 2 MaxInc = 0 MinFree = 50 Limit = 0
SPECIFICATION Spec
INVARIANTS Inv NeverFailsWithoutLimit
PROPERTY Stable
VIEW View
CHECK_DEADLOCK FALSE
