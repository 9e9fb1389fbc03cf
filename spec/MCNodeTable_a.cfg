CONSTANTS MaxSize = 6 MaxStack = 1 Slots = 1 MaxInc = 1 MinFree = 20 Limit = 6
SPECIFICATION Spec
INVARIANTS Inv NeverFailsWithoutLimit
PROPERTY Stable
VIEW View
CHECK_DEADLOCK FALSE
