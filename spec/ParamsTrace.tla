------------------------------ MODULE ParamsTrace ------------------------------
(***************************************************************************)
(* Recorded histories of parameter sets against the operations of Params.  *)
(*                                                                         *)
(* A record lists the values it uses: tok, the exact value; dbl, the value *)
(* as a double; can, the types that can represent it.  Values 1..NK are    *)
(* the documented defaults of the keys.  After every operation all keys of *)
(* both objects are read (dump).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT TraceFile
Hist == ndJsonDeserialize(TraceFile)
NK == 10

P == INSTANCE Params WITH Objs <- {0, 1}, Keys <- 1..NK, Unknown <- {}, Vals <- {},
                          Steps <- 0, store <- 0, out <- 0, hist <- 0

VARIABLES h, l, store, how
vars == <<h, l, store, how>>
Rec == Hist[h]
Ev == Rec.ev[l]
Fresh == [ k \in 1..NK |-> k ]
Init == h \in 1..Len(Hist) /\ l = 1 /\ how = "" /\ store = [ o \in {0, 1} |-> Fresh ]

Known == Ev.key \in 1..NK
After == CASE Ev.op = "set" -> P!DoSet(store, Ev.o, Ev.key, Ev.val)
           [] Ev.op = "move" -> P!DoMove(store, Ev.o, Ev.key, Ev.to, Ev.key2)
           [] Ev.op = "copy" -> P!DoCopy(store, Ev.o, Ev.to)
           [] Ev.op = "new" -> [store EXCEPT ![Ev.o] = Fresh]
           [] OTHER -> store
Val(v) == Rec.vals[v]
In(x, s) == \E j \in 1..Len(s) : s[j] = x
Wrong(st) == { <<o, k>> \in {0, 1} \X (1..NK) : LET d == Val(st[o][k]).dbl
                                               IN  d # "*" /\ Ev.dump[o + 1][k] # d }

Why ==
  CASE Ev.end \in {"hang", "crash"} -> "the program died"
    [] Ev.op \in {"set", "get"} /\ ~ Known /\ Ev.end # "throw" -> "an unknown key was accepted"
    [] Ev.op # "get" /\ Ev.end = "throw" /\ Known -> "raised: " \o Ev.exc
    [] Ev.op = "get" /\ Known /\ In(Ev.ty, Val(store[Ev.o][Ev.key]).can) /\ Ev.end = "throw" ->
         "reading raised: " \o Ev.exc
    [] Ev.op = "get" /\ Known /\ In(Ev.ty, Val(store[Ev.o][Ev.key]).can)
         /\ Ev.got # Val(store[Ev.o][Ev.key]).tok ->
         "read " \o Ev.got \o " instead of " \o Val(store[Ev.o][Ev.key]).tok
    [] Ev.op = "use" /\ Ev.fed # [ k \in 1..Len(Ev.fed) |->
                                     Val(store[Ev.o][Ev.fedkeys[k]]).tok ] ->
         "the computation is given " \o ToString(Ev.fed)
    [] Wrong(After) # {} ->
         "afterwards wrong: " \o ToString(CHOOSE x \in Wrong(After) : TRUE)
    [] OTHER -> ""

Step == /\ how = "" /\ l <= Len(Rec.ev)
        /\ IF Why = "" THEN how' = ""
           ELSE /\ PrintT("REJECT |" \o Rec.id \o "|" \o ToString(l) \o " " \o Ev.op \o ": " \o Why)
                /\ how' = "rejected"
        /\ store' = After /\ l' = l + 1 /\ UNCHANGED h
Done == /\ how # "end" /\ (how = "rejected" \/ l > Len(Rec.ev))
        /\ PrintT("DONE |" \o Rec.id \o "|" \o ToString(l - 1))
        /\ how' = "end" /\ UNCHANGED <<h, l, store>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
