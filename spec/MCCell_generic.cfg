SPECIFICATION Spec
CONSTANTS S0 = 16  M = 5
CONSTANT Points0 <- Generic  Centers0 <- Generic  Caps <- Wide
INVARIANTS TypeOK FacesExact Shape ReachLemma
PROPERTY CertFinal
CHECK_DEADLOCK FALSE
