SPECIFICATION Spec
CONSTANTS Span = 3
INVARIANTS OnceSet Maps OnlyRequest SamePlace
CHECK_DEADLOCK FALSE
