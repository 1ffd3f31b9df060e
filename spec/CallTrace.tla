------------------------------- MODULE CallTrace -------------------------------
(***************************************************************************)
(* What every call of the library has to look like from outside, whatever  *)
(* its arguments: it ends, by returning or - where the record says that    *)
(* the arguments are not acceptable - by raising an exception; the points  *)
(* are a permutation of those passed in; there is one row per point, and   *)
(* the rows hold distinct indices of other points, at most k of them.  On  *)
(* a device no work item touches storage another one writes, or leaves it. *)
(* Where the record holds the state each cell ended in, the status report  *)
(* counts them; where the property is about the report, there is one.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Calls == ndJsonDeserialize(TraceFile)

VARIABLES c, state     \* state: "running", "returned", "raised", "rejected"
vars == <<c, state>>

Call == Calls[c]

IsPermutation == /\ Len(Call.perm) = Call.n
                 /\ { Call.perm[j] : j \in 1..Call.n } = 0..(Call.n - 1)

RowOK(j) == LET r == Call.rows[j]
                s == { r[x] : x \in 1..Len(r) }
            IN  /\ Cardinality(s) = Len(r) /\ Len(r) <= Call.k
                /\ \A x \in s : 0 <= x /\ x < Call.n /\ x # j - 1
BadRows == { j \in 1..Len(Call.rows) : ~ RowOK(j) }

\* fl[j] = certified + 2 * plane overflow + 4 * vertex overflow of cell j
Cells(b, v) == Cardinality({ j \in 1..Len(Call.fl) : (Call.fl[j] \div b) % 2 = v })
Counts == << Cells(1, 0), Cells(2, 1), Cells(4, 1) >>

Why ==
  CASE Call.end = "hang"  -> "the call did not end"
    [] Call.end = "race"  -> "two workers accessed the same memory without ordering"
    [] Call.end = "crash" -> "the program died in the call"
    [] Call.end = "throw" /\ ~ Call.mayraise -> "the call raised: " \o Call.exc
    [] Call.end = "throw" -> ""
    [] Call.via # "ok" -> Call.via
    [] Call.fault # "" -> "device: " \o Call.fault
    [] ~ IsPermutation -> "the points are not a permutation of those passed in"
    [] Len(Call.rows) # Call.n -> "not one row per point"
    [] BadRows # {} -> "ill-formed row " \o ToString((CHOOSE j \in BadRows : TRUE) - 1)
    [] ~ Call.kept -> "the caller's parameters changed"
    [] Call.want /\ Len(Call.rep) # 3 -> "there is no status report"
    [] Len(Call.fl) > 0 /\ Len(Call.rep) = 3 /\ Call.rep # Counts ->
         "the report counts " \o ToString(Call.rep) \o " of " \o ToString(Counts)
    [] OTHER -> ""

Init == c \in 1..Len(Calls) /\ state = "running"

Return(why) == /\ Call.end = "return" /\ why = ""
               /\ state' = "returned"
Raise(why)  == /\ Call.end = "throw" /\ why = ""
               /\ state' = "raised"
Reject(why) == /\ why # ""
               /\ PrintT("REJECT |" \o Call.id \o "|" \o why)
               /\ state' = "rejected"

Next == /\ state = "running"
        /\ \E why \in {Why} : Return(why) \/ Raise(why) \/ Reject(why)
        /\ PrintT("DONE |" \o Call.id \o "|" \o state')
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
===============================================================================
