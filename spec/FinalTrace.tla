------------------------------ MODULE FinalTrace ------------------------------
(***************************************************************************)
(* A history of calls on one set of points with different k, capacities,   *)
(* grids and recompute settings.  A row whose cell the library counts as   *)
(* complete is final: once `final` holds a row for a point, every later    *)
(* complete row of the point must be the same.  A call with k = n - 1 and  *)
(* ample capacities, or with recompute, gives final rows by definition     *)
(* (full = TRUE), unless some cell ran out of space (over = TRUE): that    *)
(* must not happen where another such call had enough.                     *)
(*                                                                         *)
(* Points are named by labels that do not depend on their order.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Hist == ndJsonDeserialize(TraceFile)

VARIABLES h, l, final, sure, how
vars == <<h, l, final, sure, how>>

Rec == Hist[h]
Ev == Rec.calls[l]
Unknown == <<"unknown">>

Init == /\ h \in 1..Len(Hist)
        /\ l = 1 /\ sure = 0 /\ how = ""
        /\ final = [ p \in 0..(Rec.n - 1) |-> Unknown ]

\* label -> certified row in terms of labels, for one call
Lab(e, j) == e.labels[e.perm[j] + 1]
Certified(e) == { j \in 1..Len(e.perm) : (e.full /\ ~ e.over) \/ (Len(e.fl) > 0 /\ e.fl[j][1] = 1) }
RowOf(e, j) == <<"row", { Lab(e, e.rows[j][x] + 1) : x \in 1..Len(e.rows[j]) }>>

Step ==
  /\ how = "" /\ l <= Len(Rec.calls)
  /\ \E cert \in { Certified(Ev) } :
     \E got \in { [ p \in { Lab(Ev, j) : j \in cert } |->
                      RowOf(Ev, CHOOSE j \in cert : Lab(Ev, j) = p) ] } :
     \E bad \in { { p \in DOMAIN got : final[p] # Unknown /\ final[p] # got[p] } } :
       /\ \/ bad = {}
          \/ /\ bad # {}
             /\ PrintT("REJECT |" \o Rec.id \o "|" \o Ev.id \o
                       ": a complete row is not final: " \o
                       LET p == CHOOSE p \in bad : TRUE
                       IN  ToString(<<p, final[p], got[p]>>))
       /\ final' = [ p \in DOMAIN final |->
                       IF p \in DOMAIN got /\ final[p] = Unknown THEN got[p] ELSE final[p] ]
       /\ sure' = sure + Cardinality(DOMAIN got)
  /\ (Ev.full /\ Ev.over /\ \E x \in 1..(l - 1) : Rec.calls[x].full /\ ~ Rec.calls[x].over)
       => PrintT("REJECT |" \o Rec.id \o "|" \o Ev.id \o ": some cell ran out of space")
  /\ l' = l + 1
  /\ UNCHANGED <<h, how>>

End == /\ how = "" /\ l > Len(Rec.calls)
       /\ PrintT("DONE |" \o Rec.id \o "|" \o ToString(sure))
       /\ how' = "end"
       /\ UNCHANGED <<h, l, final, sure>>

Next == Step \/ End
Spec == Init /\ [][Next]_vars
View == <<h, l, how>>
===============================================================================
