------------------------------- MODULE HeapTrace -------------------------------
(***************************************************************************)
(* Trace specification for the bounded heap (module Heap).  Observed are   *)
(* the contents of the segment after each insertion and after sorting, and *)
(* whether anything outside the segment changed.  The arrangement inside   *)
(* the segment is left open, except that the root is the largest: that is  *)
(* what the next insertion is compared with.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Runs == ndJsonDeserialize(TraceFile)

VARIABLES c, l, bag, how
vars == <<c, l, bag, how>>

Run == Runs[c]
Range(s) == { s[j] : j \in 1..Len(s) }
\* the largest value of the segment as it was last seen: that of its root
Top == IF l = 1 THEN 1000000 ELSE Run.steps[l - 1][3][1][1]

Init == /\ c \in 1..Len(Runs) /\ l = 1 /\ how = ""
        /\ bag = IF Run.bulk = <<>> THEN { <<1000000, -j>> : j \in 1..Run.k } ELSE {}

Fail(why) == /\ PrintT("REJECT |" \o Run.id \o "|" \o why)
             /\ PrintT("DONE |" \o Run.id \o "|rejected")
             /\ how' = "rejected" /\ UNCHANGED <<c, l, bag>>

Insert ==
  /\ how = "" /\ Run.end = "return" /\ Run.bulk = <<>> /\ l <= Len(Run.steps)
  /\ \E st \in { Run.steps[l] } :
     \E new \in { Range(st[3]) } :
       IF \/ st[1] < Top /\
             ~ \E m \in bag \ new : m[1] = Top /\ new = (bag \ {m}) \cup { <<st[1], st[2]>> }
          \/ st[1] >= Top /\ new # bag
       THEN Fail("insertion " \o ToString(l) \o " of " \o ToString(st[1]) \o ": " \o
                 ToString(bag) \o " became " \o ToString(st[3]))
       ELSE IF \E x \in new : x[1] > st[3][1][1]
       THEN Fail("after insertion " \o ToString(l) \o " the root is not the largest: " \o
                 ToString(st[3]))
       ELSE bag' = new /\ l' = l + 1 /\ UNCHANGED <<c, how>>

Sort ==
  /\ how = "" /\ Run.end = "return" /\ Run.bulk = <<>> /\ l > Len(Run.steps)
  /\ IF Range(Run.sorted) # bag \/ Len(Run.sorted) # Run.k
     THEN Fail("sorting changed the contents: " \o ToString(Run.sorted))
     ELSE IF \E j \in 2..Run.k : Run.sorted[j - 1][1] > Run.sorted[j][1]
     THEN Fail("not sorted: " \o ToString(Run.sorted))
     ELSE IF Run.outside # 1 THEN Fail("something outside the segment changed")
     ELSE /\ PrintT("DONE |" \o Run.id \o "|accepted")
          /\ how' = "accepted" /\ UNCHANGED <<c, l, bag>>

(* A large segment, of which only the end was recorded: Run.bulk are the    *)
(* values inserted, in order; the t-th has id t - 1.                        *)
Bulk ==
  /\ how = "" /\ Run.end = "return" /\ Run.bulk # <<>>
  /\ \E kept \in { Range(Run.sorted) } :
     \E ids \in { { x[2] : x \in kept } } :
       IF \/ Len(Run.sorted) # Run.k \/ Cardinality(ids) # Run.k
          \/ \E x \in kept : IF x[2] < 0 THEN x[1] # 1000000 \/ x[2] < -Run.k
                            ELSE x[2] >= Len(Run.bulk) \/ x[1] # Run.bulk[x[2] + 1]
       THEN Fail("the segment does not hold " \o ToString(Run.k) \o " of the pairs inserted")
       ELSE IF \E j \in 2..Run.k : Run.sorted[j - 1][1] > Run.sorted[j][1]
       THEN Fail("not sorted at " \o
                 ToString(CHOOSE j \in 2..Run.k : Run.sorted[j - 1][1] > Run.sorted[j][1]))
       ELSE IF \E t \in 1..Len(Run.bulk) :
                  t - 1 \notin ids /\ Run.bulk[t] < Run.sorted[Run.k][1]
       THEN Fail("a smaller value than the largest kept was lost")
       ELSE IF Run.outside # 1 THEN Fail("something outside the segment changed")
       ELSE /\ PrintT("DONE |" \o Run.id \o "|accepted")
            /\ how' = "accepted" /\ UNCHANGED <<c, l, bag>>

Broken == how = "" /\ Run.end # "return" /\ Fail("the program ended: " \o Run.end)

Next == Insert \/ Sort \/ Bulk \/ Broken
Spec == Init /\ [][Next]_vars
View == <<c, l, how>>
===============================================================================
