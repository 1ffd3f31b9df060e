---------------------------------- MODULE Knn ----------------------------------
(***************************************************************************)
(* Search of the k nearest points through the grid: shell after shell of   *)
(* cells around the cell of the point is visited, the k nearest seen so    *)
(* far are kept, and the search ends when the farthest of them is nearer   *)
(* than anything outside the shells visited can be.                        *)
(*                                                                         *)
(* Coordinates are integers; a cell has L units, the cube Gr * L.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS
  L,          \* units per cell
  Grids,      \* resolutions
  Xs, Ys, Zs, \* coordinates used
  Others,     \* number of other points
  Slack       \* 0; the model with a positive value must fail (see MCKnn_slack)

VARIABLES gr, me, pts, k, r, todo, best, phase
vars == <<gr, me, pts, k, r, todo, best, phase>>

Sq(x) == x * x
D2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CellOf(q) == << q[1] \div L, q[2] \div L, q[3] \div L >>
Shell(a, b) == Max2(Abs(a[1] - b[1]), Max2(Abs(a[2] - b[2]), Abs(a[3] - b[3])))
ToWall(x) == Min2(x % L, L - (x % L))
Margin == Min2(ToWall(me[1]), Min2(ToWall(me[2]), ToWall(me[3])))

InShell(n) == { q \in pts : Shell(CellOf(q), CellOf(me)) = n }
Farthest == CHOOSE d \in { D2(q, me) : q \in best } : \A q \in best : D2(q, me) <= d

Position(g) == { q \in (Xs \X Ys \X Zs) : \A a \in 1..3 : q[a] > 0 /\ q[a] < g * L }

Init ==
  /\ gr \in Grids
  /\ me \in Position(gr)
  /\ \E A \in [ 1..Others -> Position(gr) \ {me} ] : pts = { A[j] : j \in 1..Others }
  /\ k \in 1..Others /\ k <= Cardinality(pts)
  /\ r = 0 /\ best = {} /\ phase = "search"
  /\ todo = InShell(0)

Visit == /\ phase = "search"
         /\ \E q \in todo :
              /\ todo' = todo \ {q}
              /\ IF Cardinality(best) < k THEN best' = best \cup {q}
                 ELSE IF D2(q, me) < Farthest
                 THEN \E z \in best : D2(z, me) = Farthest /\ best' = (best \ {z}) \cup {q}
                 ELSE UNCHANGED best
         /\ UNCHANGED <<gr, me, pts, k, r, phase>>

Enough == Cardinality(best) = k /\ Farthest < Sq(L * r + Margin + Slack)

Widen == /\ phase = "search" /\ todo = {}
         /\ IF Enough \/ r + 1 >= gr
            THEN phase' = "done" /\ UNCHANGED <<r, todo>>
            ELSE r' = r + 1 /\ todo' = InShell(r + 1) /\ UNCHANGED phase
         /\ UNCHANGED <<gr, me, pts, k, best>>

Next == Visit \/ Widen
Spec == Init /\ [][Next]_vars

KNearest == phase = "done" =>
  /\ Cardinality(best) = k
  /\ \A q \in pts \ best : \A z \in best : D2(z, me) <= D2(q, me)
===============================================================================
