SPECIFICATION Spec
CONSTANTS N0 = 3  MaxP = 16  MaxT = 32
CONSTANTS Chunks = {0, 2}  Threads = {1, 2}  Ks = {1, 2, 7}  Ps = {6, 7, 16}  Ts = {8, 10, 32}  Recs = {TRUE, FALSE}
CONSTANT Pts <- Pts0  Needs <- NeedsHard
INVARIANTS Exclusive OwnRows ResultFixed RecomputeComplete
PROPERTY CompleteStays Ends
CHECK_DEADLOCK FALSE
