-------------------------------- MODULE MCCell --------------------------------
(***************************************************************************)
(* Exhaustive check of module Cell over every point p of Points0, every    *)
(* set of M other points, nearest first, and the capacities of Caps.       *)
(*                                                                         *)
(* The faces found by clipping are compared with their definition: q owns  *)
(* a face iff some vertex of the arrangement (a triple of planes with q's  *)
(* bisector among them) lies in all the half-spaces.                       *)
(***************************************************************************)
EXTENDS Cell, TLC, FiniteSetsExt

CONSTANTS S0, Points0, Centers0, M, Caps

\* point sets for the configurations
Small27 == { <<x, y, z>> : x \in 1..3, y \in 1..3, z \in 1..3 }
UpToSymmetry == { <<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 1>>, <<2, 2, 2>> }
Generic == { <<3, 5, 9>>, <<11, 2, 7>>, <<6, 13, 4>>, <<9, 8, 14>>, <<2, 12, 11>>,
             <<13, 10, 3>>, <<5, 1, 13>>, <<12, 14, 10>>, <<8, 6, 1>>, <<7, 9, 6>> }
GenericL == Generic \cup { <<1, 3, 2>>, <<14, 5, 12>>, <<10, 11, 9>>, <<4, 7, 15>> }
Wide == { <<512, 512>> }
Tight == { <<512, 512>>, <<7, 512>>, <<8, 512>>, <<512, 8>>, <<512, 10>>, <<9, 12>> }

Sub(s, m) == kSubset(m, s)

Ordered(p0, t) ==
  LET keyed == SetToSeq({ <<Dist2(p0, q), q>> : q \in t })
  IN  [ j \in 1..Len(keyed) |-> <<j, keyed[j][2]>> ]

Init ==
  \E p0 \in Centers0 : \E t \in Sub(Points0 \ {p0}, M) : \E cp \in Caps :
    InitCell([ S |-> S0, F |-> 64, fp |-> FALSE, pm |-> cp[1], tm |-> cp[2],
               stop |-> FALSE ], p0, Ordered(p0, t))

Next == CellNext \/ (phase # "clip" /\ UNCHANGED cellVars)
Spec == Init /\ [][Next]_cellVars /\ WF_cellVars(CellNext)

-------------------------------------------------------------------------------
Half(j) == Bisector(p, cand[j][2], cand[j][1])

\* the arrangement of the walls and the bisectors of the candidates seen
Arr == Walls(p, par.S) \o [ j \in 1..(pos - 1) |-> Half(j) ]

Proper(A, a, b, c) ==
  LET x == A[a] y == A[b] z == A[c]
  IN  x[1] * (y[2] * z[3] - y[3] * z[2]) - x[2] * (y[1] * z[3] - y[3] * z[1])
        + x[3] * (y[1] * z[2] - y[2] * z[1]) # 0

\* (the vertex without its distance, which could overflow far outside)
Feasible(A, a, b, c) ==
  /\ Proper(A, a, b, c)
  /\ \E v \in { Vertex(A, a, b, c, 0, FALSE) } :
       \A j \in 1..Len(A) : ~ CutOff(v, A[j])

Triples(A) == UNION { { <<a, y[1], y[2]>> : a \in 1..(y[1] - 1) } :
                        y \in { x \in (2..Len(A)) \X (7..Len(A)) : x[1] < x[2] } }
TrueFaces(A) == { A[x][5] : x \in UNION { { t[1], t[2], t[3] } :
                    t \in { t \in Triples(A) : Feasible(A, t[1], t[2], t[3]) } } } \ {0}

FacesExact == phase = "done" => \E A \in { Arr } : Faces = TrueFaces(A)
TypeOK == CellTypeOK
Shape == phase \in {"clip", "done"} => Euler /\ VertsInside /\ PointInside

\* the shortcut used by Step
ReachLemma ==
  \A h \in { Half(j) : j \in 1..Len(cand) } : \A i \in 1..Len(verts) :
    OutOfReach(verts[i], h[4], par.F)
      => ~ CutOff(verts[i], h) /\ ~ OnPlane(verts[i], h)

\* A certified cell never changes again, and never becomes doubtful.
CertFinal == [][cert = "yes" => verts' = verts /\ phase' \in {"clip", "done"}]_cellVars

\* The capacities matter only to cells that need more.
OverflowOnlyIfNeeded ==
  /\ phase = "pover" => Len(planes) = par.pm
  /\ phase = "tover" => Len(verts) + 1 > par.tm - 8

Terminates == <>(phase # "clip")
===============================================================================
