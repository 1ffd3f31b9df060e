------------------------------- MODULE MemoTrace -------------------------------
(***************************************************************************)
(* A history of calls, in which calls with the same key must have the same *)
(* result.  The key of a call is the set of points together with whatever  *)
(* the result may depend on; what the record leaves out of the key (chunk  *)
(* size, threads, schedule, device, order of the points, earlier calls) is *)
(* what the result must not depend on.                                     *)
(*                                                                         *)
(* The result is the neighbour relation in terms of the labels of the      *)
(* points (labels do not depend on their order), and the report.  Where    *)
(* the record says so (order = TRUE), also the order in which the call     *)
(* left the points.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Hist == ndJsonDeserialize(TraceFile)

VARIABLES h, l, memo, how
vars == <<h, l, memo, how>>

\* labels of the points as left by the call: labels[perm]
Result(r, e) ==
  LET lab == [ j \in 1..Len(e.perm) |-> e.labels[e.perm[j] + 1] ]
      rel == { <<lab[j], { lab[e.rows[j][x] + 1] : x \in 1..Len(e.rows[j]) }>> :
                 j \in 1..Len(lab) }
  IN  << rel, e.rep, IF r.order THEN lab ELSE <<>> >>

Init == /\ h \in 1..Len(Hist)
        /\ l = 1
        /\ memo = [ k \in 1..Hist[h].keys |-> <<>> ]
        /\ how = ""

Rec == Hist[h]
Ev == Rec.calls[l]

Some(s) == IF s = {} THEN "{}" ELSE ToString(CHOOSE x \in s : TRUE)
Differ(a, b) ==
  IF a[3] # b[3] THEN "order of the points differs"
  ELSE IF a[1] # b[1]
       THEN "rows differ: " \o Some(a[1] \ b[1]) \o " / " \o Some(b[1] \ a[1])
       ELSE "report differs: " \o ToString(a[2]) \o " / " \o ToString(b[2])

Step ==
  /\ how = "" /\ l <= Len(Rec.calls)
  /\ \E res \in { Result(Rec, Ev) } :
       IF memo[Ev.key] = <<>>
       THEN memo' = [memo EXCEPT ![Ev.key] = res]
       ELSE /\ \/ res = memo[Ev.key]
               \/ /\ res # memo[Ev.key]
                  /\ PrintT("REJECT |" \o Rec.id \o "|" \o Ev.id \o ": " \o
                            Differ(memo[Ev.key], res))
            /\ UNCHANGED memo
  /\ l' = l + 1
  /\ UNCHANGED <<h, how>>

End == /\ how = "" /\ l > Len(Rec.calls)
       /\ PrintT("DONE |" \o Rec.id \o "|" \o ToString(Len(Rec.calls)))
       /\ how' = "end"
       /\ UNCHANGED <<h, l, memo>>

Next == Step \/ End
Spec == Init /\ [][Next]_vars
View == <<h, l, how>>
===============================================================================
