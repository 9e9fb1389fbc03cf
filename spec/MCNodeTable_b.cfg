CONSTANTS MaxSize = 6 MaxStack = 2 Slots = 1 MaxInc = 0 MinFree = 0 Limit = 0
SPECIFICATION Spec
INVARIANTS Inv NeverFailsWithoutLimit
PROPERTY Stable
VIEW View
CHECK_DEADLOCK FALSE
