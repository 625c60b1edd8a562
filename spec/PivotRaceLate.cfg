SPECIFICATION Spec
CONSTANTS
  N = 2
  T = {"t1", "t2"}
  Q = 3
  Retry = TRUE
  Atomic = TRUE
  Early = FALSE
INVARIANTS Sound Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
