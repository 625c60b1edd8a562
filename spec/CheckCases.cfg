SPECIFICATION CSpec
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
