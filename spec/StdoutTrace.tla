----------------------------- MODULE StdoutTrace -----------------------------
(***************************************************************************)
(* Recorded histories against Stdout.  Each event is an operation with     *)
(* what was observed after it: the buffer in place, how much each buffer   *)
(* and file descriptor 1 (buffer 0) received, whether the report was among *)
(* it, and whether the stream's state and format are as before.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT TraceFile
Hist == ndJsonDeserialize(TraceFile)

VARIABLES h, l, stack, bad, how
vars == <<h, l, stack, bad, how>>
Void == 98
Rec == Hist[h]
Ev == Rec.ev[l]
Top == stack[Len(stack)]
Slot == Len(stack) - 1

Init == h \in 1..Len(Hist) /\ l = 1 /\ stack = <<0>> /\ bad = FALSE /\ how = ""

Got(b) == Ev.got[b + 1]
Others(b) == \A x \in 0..(Len(Ev.got) - 1) : x # b => Got(x) = 0

After == CASE Ev.op = "push" -> Append(stack, Len(stack))
           [] Ev.op = "void" -> Append(stack, Void)
           [] Ev.op = "pop" -> SubSeq(stack, 1, Len(stack) - 1)
           [] OTHER -> stack

\* is the stream in an error state after this step
BadAfter == CASE Ev.op \in {"push", "pop", "void"} -> After[Len(After)] = Void
              [] Ev.op = "break" -> TRUE
              [] Ev.op = "mend" -> Top = Void
              [] OTHER -> bad

IsCall == Ev.op \in {"quiet", "loud"}
Why ==
  CASE Ev.end = "hang" -> "the call did not end"
    [] Ev.end = "crash" -> "the program died"
    [] IsCall /\ Ev.end = "throw" /\ ~ Ev.fail /\ ~ (Ev.op = "loud" /\ bad) ->
         "the call raised: " \o Ev.exc
    [] Ev.cur # Len(After) - 1 -> "the stream does not write where it did before the call"
    [] ~ Ev.same -> "the state or format of the stream changed"
    [] Ev.bad # BadAfter -> "the stream's error state is not the caller's"
    [] Ev.op \in {"push", "pop", "void", "break", "mend"} /\ \E x \in 0..(Len(Ev.got) - 1) : Got(x) # 0 ->
         "something was written late"
    [] Ev.op = "say" /\ ~ bad /\ (Got(Slot) # Ev.said \/ ~ Others(Slot)) ->
         "what the caller wrote did not arrive"
    [] bad /\ \E x \in 0..(Len(Ev.got) - 1) : Got(x) # 0 ->
         "something was written to a stream in an error state"
    [] Ev.op = "quiet" /\ (Got(Slot) # 0 \/ ~ Others(Slot)) ->
         "a suppressed call wrote to standard output"
    [] Ev.op = "loud" /\ ~ bad /\ ~ Others(Slot) -> "the call wrote elsewhere"
    [] Ev.op = "loud" /\ Ev.end = "return" /\ ~ bad /\ ~ Ev.report ->
         "progress and report did not appear"
    [] OTHER -> ""

Step == /\ how = "" /\ l <= Len(Rec.ev)
        /\ IF Why = "" THEN how' = ""
           ELSE /\ PrintT("REJECT |" \o Rec.id \o "|" \o ToString(l) \o " " \o Ev.op \o ": " \o Why)
                /\ how' = "rejected"
        /\ stack' = After /\ bad' = BadAfter /\ l' = l + 1
        /\ UNCHANGED h
Done == /\ how # "end" /\ (how = "rejected" \/ l > Len(Rec.ev))
        /\ PrintT("DONE |" \o Rec.id \o "|" \o ToString(l - 1))
        /\ how' = "end"
        /\ UNCHANGED <<h, l, stack, bad>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
