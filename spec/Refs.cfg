CONSTANTS Ids = {1} MaxCount = 3 MaxRefs = 4
SPECIFICATION Spec
INVARIANTS Refute Right
POSTCONDITION AllRefuted
CHECK_DEADLOCK FALSE
