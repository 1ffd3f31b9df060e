------------------------------- MODULE CellTrace -------------------------------
(***************************************************************************)
(* Trace specification for tessellation calls.                             *)
(*                                                                         *)
(* Each line of the trace is one recorded call: the points in the order in *)
(* which the library left them, the k and the capacities in force, the     *)
(* rows returned and (if it was printed) the status report.  Each call is  *)
(* one behaviour: for every judged point the candidates are the k nearest  *)
(* other points, the cell is built by the actions of module Cell, and the  *)
(* observed row must be the set of owners of its faces.  After the last    *)
(* point the observed report must lie within the counts found.             *)
(*                                                                         *)
(* A call whose row or report no action explains is rejected; the reason   *)
(* is printed and the behaviour goes on with the next point so that the    *)
(* rest of the trace is examined as well.                                  *)
(***************************************************************************)
EXTENDS Cell, TLC, Json, SequencesExt

CONSTANT TraceFile
Calls == ndJsonDeserialize(TraceFile)
NC == Len(Calls)

VARIABLES
  c,       \* the call
  i,       \* position in the list of judged points
  what,    \* "start", "cell", "report", "end"
  vague,   \* the k-th candidate is a tie / two candidates at one distance
  acc,     \* counts so far: <<srLo, srHi, pLo, pHi, tLo, tHi, judged, skipped, bad>>
  pk       \* planes and vertices needed at most so far by this cell

vars == <<par, p, cand, planes, verts, pos, phase, cert, c, i, what, vague, acc, pk>>

Call == Calls[c]
Cell0 == Call.judge[i]

\* The other points by distance, then index.  SetToSeq enumerates a set in
\* TLC's own order of values, which for pairs of integers is lexicographic;
\* Ascending makes sure of it.
Ascending(s) == \A j \in 1..(Len(s) - 1) : s[j][1] <= s[j + 1][1]
Nearest(call, me) ==
  LET P  == call.pts
      me0 == P[me]
      srt == SetToSeq({ <<Dist2(P[q], me0), q>> : q \in (1..Len(P)) \ {me} })
  IN  IF Assert(Ascending(srt), "order of candidates") THEN srt ELSE <<>>

Params(call) == [ S |-> call.S, F |-> call.F, fp |-> call.fp,
                  pm |-> call.pm, tm |-> call.tm, stop |-> TRUE ]

Init ==
  /\ c \in 1..NC
  /\ i = 1
  /\ what = "start"
  /\ vague = <<FALSE, FALSE>>
  /\ acc = <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
  /\ pk = <<6, 8>>
  /\ par = [ S |-> 1, F |-> 1, fp |-> FALSE, pm |-> 6, tm |-> 8, stop |-> TRUE ]
  /\ p = <<0, 0, 0>> /\ cand = <<>> /\ planes = <<>> /\ verts = <<>>
  /\ pos = 1 /\ phase = "done" /\ cert = "no"

Start ==
  /\ what = "start"
  /\ i <= Len(Call.judge)
  /\ \E srt \in { Nearest(Call, Cell0) } :
     \E kk \in { MinOf(Call.k, Len(srt)) } :
       /\ StartCell(Params(Call), Call.pts[Cell0],
                    [ j \in 1..kk |-> <<srt[j][2], Call.pts[srt[j][2]]>> ])
       /\ vague' = << kk < Len(srt) /\ kk > 0 /\ srt[kk][1] = srt[kk + 1][1],
                      \E j \in 1..(kk - 1) : srt[j][1] = srt[j + 1][1] >>
  /\ what' = "cell"
  /\ pk' = <<6, 8>>
  /\ UNCHANGED <<c, i, acc>>

Build ==
  /\ what = "cell"
  /\ phase = "clip"
  /\ CellNext
  /\ pk' = << MaxOf(pk[1], Len(planes')), MaxOf(pk[2], Len(verts')) >>
  /\ UNCHANGED <<c, i, what, vague, acc>>

Row == { Call.rows[Cell0][j] : j \in 1..Len(Call.rows[Cell0]) }
Distinct == Cardinality(Row) = Len(Call.rows[Cell0])
Valid == Row \subseteq ((1..Len(Call.pts)) \ {Cell0})

\* With ties the order of the cuts, hence the space needed, is not determined.
NearCapacity == vague[2] /\ (pk[1] + 6 > par.pm \/ pk[2] + 8 > par.tm)
\* The points are a small cluster and the walls are really farther away than
\* those of this lattice: only cells that do not reach them are the same.
AtWall == \E j \in 1..Len(verts) : \E a \in 1..3 : verts[j][a] <= 6
Judged == /\ phase # "degenerate" /\ phase # "far" /\ ~ vague[1] /\ ~ NearCapacity
          /\ Call.inner => phase = "done" /\ ~ AtWall

Mine == { cand[j][1] : j \in 1..Len(cand) }

RowAllowed ==
  /\ Distinct
  /\ Valid
  /\ Judged =>
       CASE phase = "done" -> Row = Faces
         [] phase = "pover" \/ phase = "tover" -> Row \subseteq Mine

\* The flags the cell was left with, where the trace has them: <<certified,
\* plane overflow, vertex overflow>>.
HasFlags == Len(Call.fl) > 0
Flag == Call.fl[Cell0]
FlagsAllowed ==
  HasFlags /\ Judged =>
    CASE phase = "done"  -> /\ Flag[2] = 0 /\ Flag[3] = 0
                            /\ cert = "yes" => Flag[1] = 1
                            /\ cert = "no" => Flag[1] = 0
      [] phase = "pover" -> Flag = <<0, 1, 0>>
      [] phase = "tover" -> Flag = <<0, 0, 1>>

Reason ==
  IF ~ Distinct THEN "duplicate neighbours"
  ELSE IF ~ Valid THEN "invalid index"
  ELSE "row differs from the cell"

One(b) == IF b THEN 1 ELSE 0
Count ==
  LET sure == Judged
      open == ~ sure
      srLo == One(sure /\ (phase # "done" \/ cert = "no"))
      srHi == One(open \/ phase # "done" \/ cert # "yes")
      pLo == One(sure /\ phase = "pover")
      pHi == One(open \/ phase = "pover")
      tLo == One(sure /\ phase = "tover")
      tHi == One(open \/ phase = "tover")
  IN  << acc[1] + srLo, acc[2] + srHi, acc[3] + pLo, acc[4] + pHi,
         acc[5] + tLo, acc[6] + tHi, acc[7] + One(sure), acc[8] + One(open),
         acc[9] + One(~ RowAllowed) >>

Accept ==
  /\ what = "cell"
  /\ phase # "clip"
  /\ \/ RowAllowed
     \/ /\ ~ RowAllowed
        /\ PrintT("REJECT |" \o Call.id \o "|" \o ToString(<<"row", Cell0 - 1, Reason,
              <<"cell", phase>>, <<"expected", Faces>>, <<"observed", Call.rows[Cell0]>>,
              "numbered from 1">>))
  /\ \/ FlagsAllowed
     \/ /\ ~ FlagsAllowed
        /\ PrintT("REJECT |" \o Call.id \o "|" \o ToString(<<"flags", Cell0 - 1,
              <<"cell", phase, cert>>, <<"observed", Flag>> >>))
  /\ acc' = Count
  /\ what' = "start"
  /\ i' = i + 1
  /\ UNCHANGED <<par, p, cand, planes, verts, pos, phase, cert, c, vague, pk>>

Between(lo, x, hi) == lo <= x /\ x <= hi
ReportAllowed ==
  Len(Call.rep) = 3 =>
    /\ Between(acc[1], Call.rep[1], acc[2])
    /\ Between(acc[3], Call.rep[2], acc[4])
    /\ Between(acc[5], Call.rep[3], acc[6])

Report ==
  /\ what = "start"
  /\ i > Len(Call.judge)
  /\ \/ ReportAllowed
     \/ /\ ~ ReportAllowed
        /\ PrintT("REJECT |" \o Call.id \o "|" \o ToString(<<"report differs",
              <<"bounds", acc>>, <<"observed", Call.rep>> >>))
  /\ PrintT("DONE |" \o Call.id \o "|" \o ToString(acc[7]) \o "|" \o ToString(acc[8]))
  /\ what' = "end"
  /\ UNCHANGED <<par, p, cand, planes, verts, pos, phase, cert, c, i, vague, acc, pk>>

Next == Start \/ Build \/ Accept \/ Report
Spec == Init /\ [][Next]_vars

\* A behaviour is determined by its call, so this tells its states apart.
View == <<c, i, what, pos, phase>>

\* Checked in every state of every behaviour that explains a trace.
Inv == what = "cell" => CellTypeOK /\ PointInside
InvDeep == what = "cell" /\ phase \in {"clip", "done"} => Euler /\ VertsInside
===============================================================================
