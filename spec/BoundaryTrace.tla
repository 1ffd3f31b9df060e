------------------------------ MODULE BoundaryTrace ------------------------------
(***************************************************************************)
(* Trace specification for hole stitching (module Boundary): the triangles *)
(* passed in, and the status and cycle that came back.  If the triangles   *)
(* form a disc the cycle is its rim.  Otherwise failure or a closed cycle  *)
(* has to come back.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Runs == ndJsonDeserialize(TraceFile)

VARIABLES c, how
vars == <<c, how>>
Run == Runs[c]

B == INSTANCE Boundary WITH MaxTris <- 0, Tell <- FALSE, disc <- {}, nv <- 0,
                            left <- {}, cyc <- {}, phase <- ""

Tris == { Run.in[j] : j \in 1..Len(Run.in) }
Corners == UNION { {t[1], t[2], t[3]} : t \in Tris }
Sides == { {e[1], e[2]} : e \in B!AllEdges(Tris) }

RECURSIVE Reach(_, _)
Reach(rest, edges) ==        \* what cannot be reached across common edges
  LET more == { t \in rest : \E e \in B!Edges(t) : B!Rev(e) \in edges }
  IN  IF more = {} THEN rest ELSE Reach(rest \ more, edges \cup B!AllEdges(more))

Rim == LET E == B!AllEdges(Tris) IN { e \in E : B!Rev(e) \notin E }
IsDisc == /\ Cardinality(Tris) = Len(Run.in)
          /\ \A t \in Tris : Cardinality({t[1], t[2], t[3]}) = 3
          /\ Cardinality(B!AllEdges(Tris)) = 3 * Len(Run.in)
          /\ Cardinality(Corners) - Cardinality(Sides) + Len(Run.in) = 1
          /\ B!OneCycle(Rim)
          /\ Reach(Tris \ { Run.in[1] }, B!Edges(Run.in[1])) = {}

L == Len(Run.cycle)
Links == { <<Run.cycle[j], Run.cycle[(j % L) + 1]>> : j \in 1..L }
Closed == /\ L > 0 /\ L < 600
          /\ Cardinality({ Run.cycle[j] : j \in 1..L }) = L
          /\ \A j \in 1..L : Run.cycle[j] >= 0

Why(isDisc) ==
  IF Run.end # "return" THEN "the program ended: " \o Run.end
  ELSE IF Run.guard # 1 THEN "something outside the given storage changed"
  ELSE IF isDisc /\ Run.status # 0 THEN "failure reported for a disc"
  ELSE IF Run.status = 0 /\ ~ Closed THEN "not a closed cycle: " \o ToString(Run.cycle)
  ELSE IF isDisc /\ (Links # Rim \/ L # Cardinality(Rim))
       THEN "cycle " \o ToString(Run.cycle) \o " instead of " \o ToString(Rim)
  ELSE ""

Init == c \in 1..Len(Runs) /\ how = ""
Judge == /\ how = ""
         /\ \E d \in {IsDisc} : \E w \in {Why(d)} :
              /\ how' = IF w # "" THEN "rejected" ELSE IF d THEN "disc" ELSE "other"
              /\ w # "" => PrintT("REJECT |" \o Run.id \o "|" \o w)
Next == /\ Judge
        /\ PrintT("DONE |" \o Run.id \o "|" \o how')
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
===============================================================================
