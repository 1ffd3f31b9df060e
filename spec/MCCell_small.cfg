SPECIFICATION Spec
CONSTANTS S0 = 4  M = 3
CONSTANT Points0 <- Small27  Centers0 <- UpToSymmetry  Caps <- Wide
INVARIANTS TypeOK FacesExact Shape ReachLemma
PROPERTY CertFinal
CHECK_DEADLOCK FALSE
