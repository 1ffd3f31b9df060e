SPECIFICATION Spec
CONSTANTS Ns = {1, 2, 3, 4, 5}  Chunks = {0, 1, 2, 3, 4, 6}  NdSizes = {1, 2, 3, 7}  Ks = {1, 2}  PM = 3  TM = 2
INVARIANTS Inside Disjoint Intact AllRows
PROPERTY Ends
CHECK_DEADLOCK FALSE
