-------------------------------- MODULE PyTrace --------------------------------
(***************************************************************************)
(* Recorded histories of the Python module.                                *)
(*                                                                         *)
(* objs: parameter sets ever made, cur: the two in use, hand: handles of   *)
(* single parameters; held: results (index of the entry of the record's    *)
(* table lib of what the C++ library returned, 0: none); view: rows of     *)
(* results, as <<entry of lib, row>>.                                      *)
(* A result is identified by looking up, in lib, the points, device and    *)
(* parameters in force; the rows must be those of that entry, for as long  *)
(* as the row object is held.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT TraceFile
Hist == ndJsonDeserialize(TraceFile)
Defaults == <<"64", "0", "1", "8196", "0", "0", "16", "32", "32", "1">>
NK == 10
VARIABLES h, l, objs, cur, hand, held, view, how
vars == <<h, l, objs, cur, hand, held, view, how>>
Rec == Hist[h]
Ev == Rec.ev[l]

Init == /\ h \in 1..Len(Hist) /\ l = 1 /\ how = ""
        /\ objs = <<Defaults, Defaults>> /\ cur = <<1, 2>> /\ hand = <<<<0, 0>>, <<0, 0>>>>
        /\ held = <<0, 0, 0>> /\ view = <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>

args == <<objs[cur[1]], objs[cur[2]]>>
Known == Ev.key \in 1..NK
Entry == { e \in 1..Len(Rec.lib) : /\ Rec.lib[e].set = Ev.set /\ Rec.lib[e].dev = Ev.dev
                                   /\ Rec.lib[e].par = args[Ev.a] }
Rows(e) == Rec.lib[e].rows
RowOf(v) == Rows(view[v][1])[view[v][2]]
Raised == Ev.end = "raise"

Why ==
  CASE Ev.end \in {"hang", "crash"} -> "the interpreter died"
    [] Ev.op = "set" /\ (~ Known \/ ~ Ev.okay) /\ ~ Raised -> "a wrong key or value was accepted"
    [] Ev.op = "set" /\ Known /\ Ev.okay /\ Raised -> "assignment raised: " \o Ev.exc
    [] Ev.op = "get" /\ ~ Known /\ ~ Raised -> "an unknown key was accepted"
    [] Ev.op = "get" /\ Known /\ Raised -> "reading raised: " \o Ev.exc
    [] Ev.op = "get" /\ Known /\ Ev.got # args[Ev.a][Ev.key] ->
         "read " \o Ev.got \o " instead of " \o args[Ev.a][Ev.key]
    [] Ev.op = "make" /\ Raised -> "the call raised: " \o Ev.exc
    [] Ev.op = "make" /\ Cardinality(Entry) # 1 -> "TABLE"
    [] Ev.op = "make" /\ Ev.rows # Rows(CHOOSE e \in Entry : TRUE) ->
         "other rows than the library's"
    [] Ev.op = "badmake" /\ ~ Raised -> "a call with a parameter that is no number was accepted"
    [] Ev.op \in {"build", "text"} /\ Raised -> "raised: " \o Ev.exc
    [] Ev.op = "build" /\ Ev.rows # Rows(Ev.ent) -> "rows of a built result read " \o ToString(Ev.rows)
    [] Ev.op = "text" /\ Ev.rows # Rows(held[Ev.o]) -> "written as " \o ToString(Ev.rows)
    [] Ev.op = "view" /\ Ev.row >= 0 /\ Ev.row < Len(Rows(held[Ev.o])) /\ Raised ->
         "taking a row raised: " \o Ev.exc
    [] Ev.op = "view" /\ Ev.row >= Len(Rows(held[Ev.o])) /\ Ev.end # "raise" ->
         "a row past the end was given out"
    [] Ev.op = "view" /\ Ev.row >= Len(Rows(held[Ev.o])) /\ Ev.exc # "IndexError" ->
         "a row past the end raises " \o Ev.exc
    [] Ev.op = "read" /\ Raised -> "reading a row raised: " \o Ev.exc
    [] Ev.op = "read" /\ Ev.vals # RowOf(Ev.v) -> "a row reads " \o ToString(Ev.vals)
    [] Ev.op = "read" /\ Ev.past # "IndexError" ->
         "an entry past the end of a row gives " \o Ev.past
    [] Ev.op \in {"href", "hread", "fresh"} /\ Raised -> "raised: " \o Ev.exc
    [] Ev.op = "hread" /\ Ev.got # objs[hand[Ev.v][1]][hand[Ev.v][2]] ->
         "a parameter handle reads " \o Ev.got
    [] Ev.op = "args" /\ Ev.all # args -> "parameters are " \o ToString(Ev.all)
    [] OTHER -> ""

Step ==
  /\ how = "" /\ l <= Len(Rec.ev)
  /\ IF Why = "" THEN how' = ""
     ELSE /\ PrintT("REJECT |" \o Rec.id \o "|" \o ToString(l) \o " " \o Ev.op \o ": " \o Why)
          /\ how' = "rejected"
  /\ objs' = IF Ev.op = "set" /\ Known /\ Ev.okay
             THEN [objs EXCEPT ![cur[Ev.a]] = [@ EXCEPT ![Ev.key] = Ev.tok]]
             ELSE IF Ev.op = "fresh" THEN Append(objs, Defaults) ELSE objs
  /\ cur' = IF Ev.op = "fresh" THEN [cur EXCEPT ![Ev.a] = Len(objs) + 1] ELSE cur
  /\ hand' = IF Ev.op = "href" THEN [hand EXCEPT ![Ev.v] = <<cur[Ev.a], Ev.key>>] ELSE hand
  /\ held' = IF Ev.op = "make" /\ Why = "" THEN [held EXCEPT ![Ev.o] = CHOOSE e \in Entry : TRUE]
             ELSE IF Ev.op = "build" THEN [held EXCEPT ![Ev.o] = Ev.ent]
             ELSE IF Ev.op = "drop" THEN [held EXCEPT ![Ev.o] = 0] ELSE held
  /\ view' = IF Ev.op = "view" /\ Ev.end = "ok" /\ Why = ""
             THEN [view EXCEPT ![Ev.v] = <<held[Ev.o], Ev.row + 1>>]
             ELSE IF Ev.op = "forget" THEN [view EXCEPT ![Ev.v] = <<0, 0>>] ELSE view
  /\ l' = l + 1 /\ UNCHANGED h
Done == /\ how # "end" /\ (how = "rejected" \/ l > Len(Rec.ev))
        /\ PrintT("DONE |" \o Rec.id \o "|" \o ToString(l - 1))
        /\ how' = "end" /\ UNCHANGED <<h, l, objs, cur, hand, held, view>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
