SPECIFICATION Spec
CONSTANTS N0 = 4  MaxP = 16  MaxT = 32
CONSTANTS Chunks = {0, 1, 2, 3, 4, 5}  Threads = {1, 2, 3}  Ks = {1, 9}  Ps = {16}  Ts = {32}  Recs = {FALSE}
CONSTANT Pts <- Pts0  Needs <- NeedsPlain
INVARIANTS Exclusive OwnRows ResultFixed
PROPERTY CompleteStays
CHECK_DEADLOCK FALSE
