------------------------------- MODULE SortTrace -------------------------------
(***************************************************************************)
(* Trace specification for the spatial sort.  A coordinate is <<num, eps>>:*)
(* num/S moved by very little in the direction of eps.  The cell of a      *)
(* coordinate is floor(x * gr), with either side allowed for what is on or *)
(* next to a boundary of cells; the outermost boundaries have one side.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Runs == ndJsonDeserialize(TraceFile)

VARIABLES c, how
vars == <<c, how>>
Run == Runs[c]
N == Len(Run.pts)

Along(x) == LET t == x[1] * Run.gr
                q == t \div Run.S
            IN  IF t % Run.S # 0 THEN {q} ELSE {q - 1, q} \cap (0..(Run.gr - 1))
CellIds(p) == { x + Run.gr * y + Run.gr * Run.gr * z :
                  x \in Along(p[1]), y \in Along(p[2]), z \in Along(p[3]) }

IsPerm == Len(Run.perm) = N /\ { Run.perm[j] : j \in 1..N } = 0..(N - 1)
WrongId == { j \in 1..N : Run.ids[j] \notin CellIds(Run.pts[Run.perm[j] + 1]) }
OutOfOrder == { j \in 2..N : Run.ids[j - 1] > Run.ids[j] }

\* The non-empty ranges <<id, first, one past the last>> the offsets tell: each
\* holds points of that cell only, and together they hold all points.
Told == { Run.runs[x] : x \in 1..Len(Run.runs) }
WrongRange == { t \in Told : \/ t[2] < 0 \/ t[3] <= t[2] \/ t[3] > N
                             \/ \E j \in (t[2] + 1)..t[3] : Run.ids[j] # t[1] }
Why ==
  IF Run.end # "return" THEN "the program ended: " \o Run.end
  ELSE IF ~ IsPerm THEN "the points are not a permutation of those passed in"
  ELSE IF Len(Run.ids) # N THEN "not one id per point"
  ELSE IF WrongId # {} THEN
    LET j == CHOOSE j \in WrongId : TRUE
    IN  "wrong cell: " \o ToString(<<Run.pts[Run.perm[j] + 1], Run.ids[j]>>)
  ELSE IF OutOfOrder # {} THEN "points are not in the order of the cells"
  ELSE IF Run.cells # Run.gr * Run.gr * Run.gr THEN "wrong number of offsets"
  ELSE IF Run.first # 0 \/ Run.last # N THEN "the offsets do not span the points"
  ELSE IF WrongRange # {} THEN "wrong range: " \o ToString(CHOOSE t \in WrongRange : TRUE)
  ELSE IF UNION { (t[2] + 1)..t[3] : t \in Told } # 1..N THEN "the ranges do not hold all points"
  ELSE ""

Init == c \in 1..Len(Runs) /\ how = ""
Judge == /\ how = ""
         /\ \E w \in {Why} :
              /\ how' = IF w = "" THEN "accepted" ELSE "rejected"
              /\ w # "" => PrintT("REJECT |" \o Run.id \o "|" \o w)
Next == /\ Judge
        /\ PrintT("DONE |" \o Run.id \o "|" \o how')
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
===============================================================================
