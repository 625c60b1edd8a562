SPECIFICATION Spec
CONSTANTS
  N = 2
  T = {"t1", "t2"}
  Q = 2
  Retry = FALSE
  Atomic = TRUE
  Early = TRUE
INVARIANTS Echelon Sound Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
