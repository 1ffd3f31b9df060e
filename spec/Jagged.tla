-------------------------------- MODULE Jagged --------------------------------
(***************************************************************************)
(* The container of rows: a flat list and the starts of the rows in it.    *)
(* Pack is what the library does with the rows of a tessellation; Row and  *)
(* Lines are what a user reads back.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Vals, MaxRows, MaxLen, Steps
VARIABLES rows, list, offs, n
vars == <<rows, list, offs, n>>

RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE Head(rs) \o Flat(Tail(rs))
RECURSIVE Sum(_, _)
Sum(rs, m) == IF m = 0 THEN 0 ELSE Len(rs[m]) + Sum(rs, m - 1)
Starts(rs) == [ m \in 1..(Len(rs) + 1) |-> Sum(rs, m - 1) ]

\* the stored form is well formed
WellFormed(li, of) == IF of = <<>> THEN li = <<>>
                      ELSE /\ of[1] = 0 /\ of[Len(of)] = Len(li)
                           /\ \A m \in 1..(Len(of) - 1) : of[m] <= of[m + 1]
Size(of) == IF of = <<>> THEN 0 ELSE Len(of) - 1
RowOf(li, of, i) == SubSeq(li, of[i] + 1, of[i + 1])          \* i from 1
Lines(li, of) == [ i \in 1..Size(of) |-> RowOf(li, of, i) ]

AllRows == UNION { [1..m -> Vals] : m \in 0..MaxLen }
Init == /\ \E m \in 0..MaxRows : rows \in [1..m -> AllRows]
        /\ list = Flat(rows) /\ offs = Starts(rows) /\ n = 0
\* assigning to an element through a row
Edit(i, j, v) ==
  /\ n < Steps /\ i \in 1..Len(rows) /\ j \in 1..Len(rows[i])
  /\ rows' = [rows EXCEPT ![i] = [@ EXCEPT ![j] = v]]
  /\ list' = [list EXCEPT ![offs[i] + j] = v]
  /\ n' = n + 1 /\ UNCHANGED offs
Next == \E i \in 1..MaxRows, j \in 1..MaxLen, v \in Vals : Edit(i, j, v)
Spec == Init /\ [][Next]_vars

Partition == WellFormed(list, offs)
Faithful == Lines(list, offs) = rows /\ Size(offs) = Len(rows)
===============================================================================
