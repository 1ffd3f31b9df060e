SPECIFICATION Spec
CONSTANTS N0 = 3  MaxP = 16  MaxT = 32
CONSTANTS Chunks = {0}  Threads = {1, 2}  Ks = {1, 2}  Ps = {6, 7}  Ts = {8}  Recs = {TRUE}
CONSTANT Pts <- Pts0  Needs <- NeedsOver
INVARIANTS Exclusive OwnRows ResultFixed RecomputeComplete
PROPERTY CompleteStays Ends
CHECK_DEADLOCK FALSE
