CONSTANTS Need = 3   Budget = 2  Window = 5
SPECIFICATION Spec
INVARIANTS Right Small Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
