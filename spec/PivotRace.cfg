SPECIFICATION Spec
CONSTANTS
  N = 3
  T = {"t1", "t2", "t3"}
  Q = 2
  Retry = TRUE
  Atomic = TRUE
  Early = TRUE
INVARIANTS Echelon Sound Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
