-------------------------------- MODULE Boundary --------------------------------
(***************************************************************************)
(* Closing the hole: the vertices of a cell that a bisector cuts off are   *)
(* triangles of planes which form a disc; its rim, as a closed cycle, is   *)
(* found by absorbing one triangle after the other into a cycle that stays *)
(* simple throughout.                                                      *)
(*                                                                         *)
(* The first phase grows an arbitrary disc (every triangulated disc can be *)
(* grown like this); the second phase forgets how it was grown and absorbs *)
(* its triangles in any order, starting from any of them.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxTris, Tell      \* Tell: print the discs

VARIABLES disc, nv, left, cyc, phase
vars == <<disc, nv, left, cyc, phase>>

Edges(t) == { <<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>> }
Rev(e) == <<e[2], e[1]>>
AllEdges(T) == UNION { Edges(t) : t \in T }
Rim(T) == { e \in AllEdges(T) : Rev(e) \notin AllEdges(T) }

\* a set of directed edges is one simple closed cycle
Simple(E) == /\ \A e, f \in E : e # f => e[1] # f[1] /\ e[2] # f[2]
             /\ { e[1] : e \in E } = { e[2] : e \in E }
RECURSIVE Walk(_, _, _)
Walk(E, at, seen) ==
  LET nx == { e[2] : e \in { f \in E : f[1] = at } }
  IN  IF nx = {} THEN seen
      ELSE LET y == CHOOSE y \in nx : TRUE
           IN  IF y \in seen THEN seen ELSE Walk(E, y, seen \cup {y})
OneCycle(E) == /\ E # {} /\ Simple(E)
               /\ LET s == (CHOOSE e \in E : TRUE)[1]
                  IN  Cardinality(Walk(E, s, {s})) = Cardinality(E)

Init == /\ disc = { <<1, 2, 3>> } /\ nv = 3
        /\ left = {} /\ cyc = {} /\ phase = "grow"

Grow ==
  /\ phase = "grow" /\ Cardinality(disc) < MaxTris
  /\ \/ \E e \in Rim(disc) :                     \* a new corner
          /\ disc' = disc \cup { <<e[2], e[1], nv + 1>> }
          /\ nv' = nv + 1
     \/ \E e, f \in Rim(disc) :                  \* fill a notch
          /\ e[2] = f[1] /\ Cardinality(Rim(disc)) > 3
          /\ <<e[1], f[2]>> \notin AllEdges(disc) /\ <<f[2], e[1]>> \notin AllEdges(disc)
          /\ disc' = disc \cup { <<e[2], e[1], f[2]>> }
          /\ nv' = nv
  /\ UNCHANGED <<left, cyc, phase>>

Begin ==
  /\ phase = "grow"
  /\ Tell => PrintT("DISC |" \o ToString(disc))
  /\ \E t \in disc : /\ left' = disc \ {t}
                     /\ cyc' = Edges(t)
  /\ phase' = "stitch"
  /\ UNCHANGED <<disc, nv>>

Shared(t) == { e \in Edges(t) : Rev(e) \in cyc }
After(t) == (cyc \ { Rev(e) : e \in Shared(t) }) \cup (Edges(t) \ Shared(t))
Absorbable(t) == Shared(t) # {} /\ Simple(After(t))

Absorb == /\ phase = "stitch"
          /\ \E t \in left : /\ Absorbable(t)
                             /\ cyc' = After(t)
                             /\ left' = left \ {t}
          /\ UNCHANGED <<disc, nv, phase>>

Next == Grow \/ Begin \/ Absorb
Spec == Init /\ [][Next]_vars

GrowsDiscs == phase = "grow" => OneCycle(Rim(disc))
CycleIsRim == phase = "stitch" => OneCycle(cyc) /\ cyc = Rim(disc \ left)
NeverStuck == phase = "stitch" /\ left # {} => \E t \in left : Absorbable(t)
===============================================================================
