---------------------------------- MODULE Heap ----------------------------------
(***************************************************************************)
(* A bounded max-heap in a segment of an array: values are inserted by     *)
(* replacing the root when they are smaller, the heap order is restored by *)
(* sifting down, and at the end the segment is heap-sorted.                *)
(* Pairs are <<value, id>>; ids are distinct.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxK, Values, MaxInserts
Inf == 1000000

VARIABLES k, seg, seen, n, phase   \* phase: "insert", "sorted"
vars == <<k, seg, seen, n, phase>>

Val(x) == x[1]
Swap(s, a, b) == [ s EXCEPT ![a] = s[b], ![b] = s[a] ]

\* sift the element at i down within the first m elements
RECURSIVE Sift(_, _, _)
Sift(s, m, i) ==
  LET l == 2 * i
      r == 2 * i + 1
      a == IF l <= m /\ Val(s[l]) > Val(s[i]) THEN l ELSE i
      b == IF r <= m /\ Val(s[r]) > Val(s[a]) THEN r ELSE a
  IN  IF b = i THEN s ELSE Sift(Swap(s, i, b), m, b)

RECURSIVE Build(_, _, _), Drain(_, _)
Build(s, m, i) == IF i = 0 THEN s ELSE Build(Sift(s, m, i), m, i - 1)
Drain(s, i) == IF i = 0 THEN s ELSE Drain(Sift(Swap(s, 1, i), i - 1, 1), i - 1)
HeapSort(s, m) == Drain(Build(s, m, m \div 2), m)

Range(s) == { s[j] : j \in 1..Len(s) }

Init == /\ k \in 1..MaxK
        /\ seg = [ j \in 1..k |-> <<Inf, -j>> ]
        /\ seen = Range(seg)
        /\ n = 0 /\ phase = "insert"

Insert(v) ==
  /\ phase = "insert" /\ n < MaxInserts
  /\ n' = n + 1
  /\ seen' = seen \cup { <<v, n>> }
  /\ seg' = IF v < Val(seg[1]) THEN Sift([seg EXCEPT ![1] = <<v, n>>], k, 1) ELSE seg
  /\ UNCHANGED <<k, phase>>

Sort == /\ phase = "insert"
        /\ seg' = HeapSort(seg, k)
        /\ phase' = "sorted"
        /\ UNCHANGED <<k, seen, n>>

Next == (\E v \in Values : Insert(v)) \/ Sort
Spec == Init /\ [][Next]_vars

\* the segment holds k of the pairs seen, none of the others being smaller
KeepsSmallest ==
  /\ Cardinality(Range(seg)) = k
  /\ Range(seg) \subseteq seen
  /\ \A x \in seen \ Range(seg) : \A y \in Range(seg) : Val(y) <= Val(x)
RootIsMax == phase = "insert" => \A x \in Range(seg) : Val(x) <= Val(seg[1])
HeapOrder == phase = "insert" => \A j \in 2..k : Val(seg[j]) <= Val(seg[j \div 2])
Sorted == phase = "sorted" => \A j \in 2..k : Val(seg[j - 1]) <= Val(seg[j])
===============================================================================
