-------------------------------- MODULE SortGrid --------------------------------
(***************************************************************************)
(* The spatial sort: points are put into the cells of a grid, then sorted  *)
(* by cell number with a stable counting sort per digit, least significant *)
(* first; finally the table of offsets is built by counting.               *)
(* A point is <<cell, name>>; Base^Digits is at least the number of cells. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxN, Cells, Base, Digits

VARIABLES arr0, arr, digit, offs
vars == <<arr0, arr, digit, offs>>

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Digit(x, d) == (x \div Pow(Base, d)) % Base
Range(s) == { s[j] : j \in 1..Len(s) }

\* where the element at position j goes in a stable counting sort by digit d
Place(a, d, j) ==
  1 + Cardinality({ i \in 1..Len(a) : Digit(a[i][1], d) < Digit(a[j][1], d) })
    + Cardinality({ i \in 1..(j - 1) : Digit(a[i][1], d) = Digit(a[j][1], d) })

Init == /\ \E m \in 0..MaxN : \E f \in [ 1..m -> 0..(Cells - 1) ] :
             arr0 = [ j \in 1..m |-> <<f[j], j>> ]
        /\ arr = arr0 /\ digit = 0 /\ offs = <<>>

Pass == /\ digit < Digits
        /\ arr' = [ q \in 1..Len(arr) |->
                      arr[CHOOSE j \in 1..Len(arr) : Place(arr, digit, j) = q] ]
        /\ digit' = digit + 1
        /\ UNCHANGED <<arr0, offs>>

Offsets == /\ digit = Digits /\ offs = <<>>
           /\ offs' = [ c \in 0..Cells |->
                          Cardinality({ j \in 1..Len(arr) : arr[j][1] < c }) ]
           /\ UNCHANGED <<arr0, arr, digit>>

Next == Pass \/ Offsets
Spec == Init /\ [][Next]_vars

Permutes == Range(arr) = Range(arr0) /\ Len(arr) = Len(arr0)
\* after d passes sorted by the low d digits, equal ones in their first order
Low(x) == x % Pow(Base, digit)
SortedSoFar ==
  \A j \in 2..Len(arr) : \/ Low(arr[j - 1][1]) < Low(arr[j][1])
                         \/ Low(arr[j - 1][1]) = Low(arr[j][1]) /\ arr[j - 1][2] < arr[j][2]
InOrder == digit = Digits => \A j \in 2..Len(arr) : arr[j - 1][1] <= arr[j][1]
Exact == offs # <<>> =>
  \A c \in 0..(Cells - 1) : \A j \in 1..Len(arr) :
     (arr[j][1] = c) <=> (offs[c] < j /\ j <= offs[c + 1])
===============================================================================
