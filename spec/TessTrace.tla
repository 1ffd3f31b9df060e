------------------------------- MODULE TessTrace -------------------------------
(***************************************************************************)
(* Trace specification for the orchestration of a call (module Tessellate):*)
(* the events recorded in one call must be a behaviour in which            *)
(*   - a round names each of its points once,                              *)
(*   - a slot of a round is worked on by one worker only (Exclusive),      *)
(*   - a worker finishes the point it has taken before it takes another,   *)
(*     and the point is the one the round put into that slot (OwnRows),    *)
(*   - a round is committed only when each of its slots has been finished, *)
(*   - the chunks together commit every point,                             *)
(*   - the report counts the flags the cells were left with.               *)
(* How the slots are divided among the workers is left open.               *)
(*                                                                         *)
(* An event is <<kind, worker, a, b, list>>; kinds: C call, R chunk round, *)
(* Q recompute round, T take, F candidates found, S cell done, M commit.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Calls == ndJsonDeserialize(TraceFile)

VARIABLES c, l, list, taken, open, done, st, committed, chunks, how
vars == <<c, l, list, taken, open, done, st, committed, chunks, how>>

Call == Calls[c]
E == Call.ev[l]
Kind == E[1]

Init == /\ c \in 1..Len(Calls)
        /\ l = 1 /\ list = <<>> /\ taken = {} /\ open = {} /\ done = {}
        /\ st = [ i \in 0..(Call.n - 1) |-> -1 ]
        /\ committed = {} /\ chunks = 0 /\ how = ""

More == how = "" /\ l <= Len(Call.ev)
Range(s) == { s[j] : j \in 1..Len(s) }

Fail(why) == /\ PrintT("REJECT |" \o Call.id \o "|event " \o ToString(l) \o ": " \o why)
             /\ PrintT("DONE |" \o Call.id \o "|rejected|0")
             /\ how' = "rejected"
             /\ UNCHANGED <<c, l, list, taken, open, done, st, committed, chunks>>

Begin == /\ More /\ Kind = "C"
         /\ l' = l + 1
         /\ UNCHANGED <<c, list, taken, open, done, st, committed, chunks, how>>

Round == /\ More /\ Kind \in {"R", "Q"}
         /\ LET pts == Range(E[5])
            IN  IF Cardinality(pts) # Len(E[5]) THEN Fail("a point is twice in a round")
                ELSE IF ~ (pts \subseteq 0..(Call.n - 1)) THEN Fail("not a point")
                ELSE IF open # {} THEN Fail("a round starts before the last one has ended")
                ELSE /\ list' = E[5]
                     /\ taken' = {} /\ done' = {}
                     /\ chunks' = chunks + (IF Kind = "R" THEN 1 ELSE 0)
                     /\ l' = l + 1
                     /\ UNCHANGED <<c, open, st, committed, how>>

\* slots beyond the list may be worked on in vain (they are not committed)
Take == /\ More /\ Kind = "T"
        /\ LET w == E[2]  i == E[3]  s == E[4] + 1
           IN  IF \E x \in taken : x[1] = s /\ x[2] # w
               THEN Fail("two workers in one slot")
               ELSE IF s <= Len(list) /\ list[s] # i THEN Fail("slot holds another point")
               ELSE IF \E x \in open : x[3] = i THEN Fail("two workers at one point")
               ELSE IF \E x \in open : x[1] = w THEN Fail("worker takes two slots at once")
               ELSE /\ taken' = taken \cup { <<s, w>> }
                    /\ open' = open \cup { <<w, s, i>> }
                    /\ l' = l + 1
                    /\ UNCHANGED <<c, list, done, st, committed, chunks, how>>

Found == /\ More /\ Kind = "F"
         /\ l' = l + 1
         /\ UNCHANGED <<c, list, taken, open, done, st, committed, chunks, how>>

CellDone ==
  /\ More /\ Kind = "S"
  /\ LET w == E[2]  i == E[3]
         mine == { x \in open : x[1] = w }
     IN  IF mine # {} /\ (CHOOSE x \in mine : TRUE)[3] # i
         THEN Fail("worker finishes another point than it took")
         ELSE /\ done' = done \cup { x[2] : x \in mine }
              /\ open' = open \ mine
              /\ st' = [st EXCEPT ![i] = E[4]]
              /\ l' = l + 1
              /\ UNCHANGED <<c, list, taken, committed, chunks, how>>

Commit ==
  /\ More /\ Kind = "M"
  /\ IF taken # {} /\ ~ (1..Len(E[5]) \subseteq done)
     THEN Fail("a row is committed that was not computed in this round")
     ELSE IF E[5] # list THEN Fail("committed points are not those of the round")
     ELSE /\ committed' = committed \cup Range(E[5])
          /\ l' = l + 1
          /\ UNCHANGED <<c, list, taken, open, done, st, chunks, how>>

Bit(b, m) == (b \div m) % 2 = 1
Known == \A i \in 0..(Call.n - 1) : st[i] >= 0
Counted == << Cardinality({ i \in DOMAIN st : ~ Bit(st[i], Call.srbit) }),
              Cardinality({ i \in DOMAIN st : Bit(st[i], Call.pbit) }),
              Cardinality({ i \in DOMAIN st : Bit(st[i], Call.tbit) }) >>

End == /\ how = "" /\ l > Len(Call.ev)
       /\ IF chunks > 0 /\ committed # 0..(Call.n - 1)
          THEN Fail("points never committed: " \o ToString((0..(Call.n - 1)) \ committed))
          ELSE IF Len(Call.rep) = 3 /\ Known /\ Call.rep # Counted
          THEN Fail("report " \o ToString(Call.rep) \o " instead of " \o ToString(Counted))
          ELSE /\ PrintT("DONE |" \o Call.id \o "|accepted|" \o ToString(chunks))
               /\ how' = "accepted"
               /\ UNCHANGED <<c, l, list, taken, open, done, st, committed, chunks>>

Next == Begin \/ Round \/ Take \/ Found \/ CellDone \/ Commit \/ End
Spec == Init /\ [][Next]_vars
View == <<c, l, how>>
===============================================================================
