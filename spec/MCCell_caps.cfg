SPECIFICATION Spec
CONSTANTS S0 = 16  M = 5
CONSTANT Points0 <- Generic  Centers0 <- Generic  Caps <- Tight
INVARIANTS TypeOK FacesExact Shape OverflowOnlyIfNeeded
PROPERTY CertFinal Terminates
CHECK_DEADLOCK FALSE
