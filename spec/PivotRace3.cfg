SPECIFICATION Spec
CONSTANTS
  N = 2
  T = {"t1", "t2", "t3"}
  Q = 3
  Retry = TRUE
  Atomic = TRUE
  Early = TRUE
INVARIANTS Echelon Sound Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
