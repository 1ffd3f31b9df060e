------------------------------- MODULE KnnTrace -------------------------------
(***************************************************************************)
(* Trace specification for the search: the candidates recorded for a point *)
(* are k different other points, nearest first, and no other point is      *)
(* nearer than the last (KNearest of module Knn; any choice among equals). *)
(* Points are on a lattice fine enough for the code to be exact as well, or *)
(* the trace gives, for each search, the ranks of the distances of all     *)
(* points (equal rank: not to be told apart in the arithmetic of the code).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Calls == ndJsonDeserialize(TraceFile)

VARIABLES c, l, how
vars == <<c, l, how>>
Call == Calls[c]
N == Len(Call.pts)

Sq(x) == x * x
D2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])

Why(me, ids) ==
  LET P == Call.pts
      Far(q) == IF Len(Call.rank) > 0 THEN Call.rank[l][q + 1] ELSE D2(P[q + 1], P[me + 1])
      D == [ j \in 1..Len(ids) |-> IF ids[j] >= 0 /\ ids[j] < N THEN Far(ids[j]) ELSE -1 ]
      S == { ids[j] : j \in 1..Len(ids) }
  IN  IF Len(ids) # Call.k /\ Call.k > 0 THEN "wrong number of candidates"
      ELSE IF ~ (S \subseteq 0..(N - 1)) THEN "not a point"
      ELSE IF me \in S THEN "the point itself is a candidate"
      ELSE IF Cardinality(S) # Len(ids) THEN "a candidate twice"
      ELSE IF \E j \in 2..Len(ids) : D[j - 1] > D[j] THEN "not nearest first"
      ELSE IF \E q \in (0..(N - 1)) \ (S \cup {me}) :
                Far(q) < D[Len(ids)]
           THEN "a nearer point was missed: " \o
                ToString(CHOOSE q \in (0..(N - 1)) \ (S \cup {me}) :
                           Far(q) < D[Len(ids)])
      ELSE ""

Init == c \in 1..Len(Calls) /\ l = 1 /\ how = ""
Search ==
  /\ how = "" /\ l <= Len(Call.found)
  /\ \E w \in { Why(Call.found[l][1], Call.found[l][2]) } :
       w # "" => PrintT("REJECT |" \o Call.id \o "|point " \o ToString(Call.found[l][1]) \o
                        ": " \o w \o "; candidates " \o ToString(Call.found[l][2]))
  /\ l' = l + 1
  /\ UNCHANGED <<c, how>>
End == /\ how = "" /\ l > Len(Call.found)
       /\ PrintT("DONE |" \o Call.id \o "|" \o ToString(Len(Call.found)))
       /\ how' = "end" /\ UNCHANGED <<c, l>>
Next == Search \/ End
Spec == Init /\ [][Next]_vars
===============================================================================
