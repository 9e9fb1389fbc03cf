CONSTANTS Ids = {1, 2} MaxCount = 3 MaxRefs = 3
SPECIFICATION Spec
INVARIANTS Refute Right
POSTCONDITION AllRefuted
CHECK_DEADLOCK FALSE
