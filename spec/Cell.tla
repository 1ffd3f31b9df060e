--------------------------------- MODULE Cell ---------------------------------
(***************************************************************************)
(* Construction of one Voronoi cell.                                       *)
(*                                                                         *)
(* The cell starts as the cube and is cut by the bisectors towards the     *)
(* candidates, nearest first.  Each step takes the next candidate and      *)
(* either finds that its bisector cuts nothing off (Skip), replaces the    *)
(* vertices cut off by the rim of the hole (Cut), or finds that the cell   *)
(* would need more planes or vertices than it may use (PlaneOverflow,      *)
(* VertexOverflow).  Once a candidate is farther away than twice the       *)
(* farthest vertex the cell is certified: no later candidate can cut it.   *)
(*                                                                         *)
(* The specification is exact.  Where exact arithmetic finds a vertex ON a *)
(* bisector the shape of the cell is a matter of rounding, and the cell    *)
(* becomes Degenerate: nothing is claimed about it.                        *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets, SequencesExt

VARIABLES
  par,     \* [S, F, fp, pm, tm, stop]: cube, scale, single precision?, capacities, stop when certified?
  p,       \* the point
  cand,    \* candidates <<index, <<x, y, z>> >>, nearest first
  planes,  \* planes used so far; the first six are the walls
  verts,   \* vertices of the cell
  pos,     \* next candidate
  phase,   \* "clip", or how it ended: "done", "pover", "tover", "degenerate", "far"
  cert     \* "no", "maybe" (too close to call), "yes"

cellVars == <<par, p, cand, planes, verts, pos, phase, cert>>

CubeVerts(pl, F, fp) ==
  [ i \in 1..8 |-> Vertex(pl, 1 + ((i - 1) % 2), 3 + (((i - 1) \div 2) % 2),
                          5 + ((i - 1) \div 4), F, fp) ]

StartCell(par0, p0, cand0) ==
  /\ par' = par0
  /\ p' = p0
  /\ cand' = cand0
  /\ planes' = Walls(p0, par0.S)
  /\ verts' = CubeVerts(Walls(p0, par0.S), par0.F, par0.fp)
  /\ pos' = 1
  /\ phase' = "clip"
  /\ cert' = "no"

InitCell(par0, p0, cand0) ==
  /\ par = par0
  /\ p = p0
  /\ cand = cand0
  /\ planes = Walls(p0, par0.S)
  /\ verts = CubeVerts(Walls(p0, par0.S), par0.F, par0.fp)
  /\ pos = 1
  /\ phase = "clip"
  /\ cert = "no"

CertAfter(d) ==
  IF cert = "yes" \/ SecYes(verts, d, par.F) THEN "yes"
  ELSE IF cert = "maybe" \/ ~ SecNo(verts, d, par.F) THEN "maybe" ELSE "no"

\* beyond this the arithmetic of the specification could overflow
TooFar(h) == MaxAbs3(h[1], h[2], h[3]) > 104

Finish == /\ phase = "clip"
          /\ pos > Len(cand)
          /\ phase' = "done"
          /\ UNCHANGED <<par, p, cand, planes, verts, pos, cert>>

End(how) == /\ phase' = how
            /\ UNCHANGED <<par, p, cand, planes, verts, pos, cert>>

Advance(c) == /\ pos' = pos + 1
              /\ cert' = c
              /\ phase' = IF c = "yes" /\ par.stop THEN "done" ELSE "clip"
              /\ UNCHANGED <<par, p, cand>>

Skip(h) == UNCHANGED <<planes, verts>> /\ Advance(CertAfter(h[4]))

\* rim: the edges around the hole, as a sequence
Cut(h, kept, rim) ==
  /\ planes' = Append(planes, h)
  /\ verts' = kept \o [ i \in 1..Len(rim) |->
                          Vertex(planes', EdgeA(rim[i]), EdgeB(rim[i]),
                                 Len(planes) + 1, par.F, par.fp) ]
  /\ Advance(CertAfter(h[4]))

\* (\E x \in {e} makes TLC evaluate e once.)
Step ==
  /\ phase = "clip"
  /\ pos <= Len(cand)
  /\ \E h \in { Bisector(p, cand[pos][2], cand[pos][1]) } :
       LET IsOff(v) == IF OutOfReach(v, h[4], par.F) THEN FALSE ELSE CutOff(v, h)
           Stays(v) == ~ IsOff(v)
           Vague(v) == IF par.fp THEN Near(v, h)
                       ELSE IF OutOfReach(v, h[4], par.F) THEN FALSE
                       ELSE OnPlane(v, h)
       IN  IF TooFar(h) THEN End("far")
           ELSE IF \E i \in 1..Len(verts) : Vague(verts[i]) THEN End("degenerate")
           ELSE \E removed \in { SelectSeq(verts, IsOff) } :
                  IF removed = <<>> THEN Skip(h)
                  ELSE IF Len(planes) >= par.pm THEN End("pover")
                  ELSE \E kept \in { SelectSeq(verts, Stays) } :
                       \E rim \in { RimEdges(removed, kept) } :
                         IF Len(kept) + Cardinality(rim) > par.tm THEN End("tover")
                         ELSE Cut(h, kept, SetToSeq(rim))

CellNext == Step \/ Finish

-------------------------------------------------------------------------------
\* What the cell says about its neighbours.
Faces == { planes[verts[i][j]][5] : i \in 1..Len(verts), j \in 1..3 } \ {0}

CellTypeOK ==
  /\ phase \in {"clip", "done", "pover", "tover", "degenerate", "far"}
  /\ cert \in {"no", "maybe", "yes"}
  /\ pos \in 1..(Len(cand) + 1)
  /\ Len(planes) <= par.pm
  /\ Len(verts) <= par.tm
  /\ \A i \in 1..Len(verts) : verts[i][7] > 0

\* A simple polytope: V = 2F - 4, and every edge has two ends.
Euler ==
  LET used == { verts[i][j] : i \in 1..Len(verts), j \in 1..3 }
  IN  Len(verts) = 2 * Cardinality(used) - 4

\* The point itself is strictly inside.
PointInside == \A i \in 1..Len(planes) : planes[i][4] > 0

\* Every vertex satisfies every plane met so far.
VertsInside ==
  \A i \in 1..Len(verts) : \A j \in 1..Len(planes) : ~ CutOff(verts[i], planes[j])
===============================================================================
