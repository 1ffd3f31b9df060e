SPECIFICATION Spec
CONSTANTS S0 = 16  M = 6
CONSTANT Points0 <- GenericL  Centers0 <- GenericL  Caps <- Wide
INVARIANTS TypeOK FacesExact Shape ReachLemma
PROPERTY CertFinal
CHECK_DEADLOCK FALSE
