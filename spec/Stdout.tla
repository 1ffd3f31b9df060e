-------------------------------- MODULE Stdout --------------------------------
(***************************************************************************)
(* The caller's standard output around calls of the library.               *)
(*                                                                         *)
(* std::cout writes to a buffer; the caller may have installed buffers of  *)
(* its own on top of the original one (0).  A call with suppression on     *)
(* puts a buffer of its own in place for as long as it lasts, however it   *)
(* ends.  count[b] is what buffer b has received.                          *)
(*                                                                         *)
(* The stream also has an error state: while it is bad nothing that is     *)
(* written arrives.  Installing a buffer mends the stream (std::ios), so   *)
(* the library has to put the caller's state back with the caller's buffer.*)
(* The caller may also take the buffer away altogether (Void), a way of    *)
(* silencing the stream: it is bad for as long as that lasts.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Depth,     \* most buffers installed by the caller
          Steps      \* length of a history

VARIABLES stack, cur, bad, want, saved, count, call, hist
vars == <<stack, cur, bad, want, saved, count, call, hist>>

Own == 99            \* the library's buffer
Void == 98           \* no buffer at all
Bufs == 0..Depth
Top == stack[Len(stack)]
Idle == call = <<>>

\* bad: the stream's error state; want: what the caller left it in
Init == /\ stack = <<0>> /\ cur = 0 /\ bad = FALSE /\ want = FALSE /\ saved = <<>>
        /\ count = [ b \in Bufs |-> 0 ] /\ call = <<>> /\ hist = <<>>

More == Len(hist) < Steps
Put(b) == /\ cur' = b /\ bad' = (b = Void) /\ want' = (b = Void)

Install == /\ Idle /\ More /\ Len(stack) <= Depth
           /\ \E b \in {Len(stack), Void} :
                /\ stack' = Append(stack, b) /\ Put(b)
                /\ hist' = Append(hist, IF b = Void THEN "void" ELSE "push")
           /\ UNCHANGED <<saved, count, call>>

Remove == /\ Idle /\ More /\ Len(stack) > 1
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Put(stack[Len(stack) - 1])
          /\ hist' = Append(hist, "pop")
          /\ UNCHANGED <<saved, count, call>>

\* an error on the stream (a full disk, say), and its removal
Break == /\ Idle /\ More /\ ~ bad
         /\ bad' = TRUE /\ want' = TRUE /\ hist' = Append(hist, "break")
         /\ UNCHANGED <<stack, cur, saved, count, call>>
Mend == /\ Idle /\ More /\ bad /\ cur # Void
        /\ bad' = FALSE /\ want' = FALSE /\ hist' = Append(hist, "mend")
        /\ UNCHANGED <<stack, cur, saved, count, call>>

Arrives(b) == IF bad \/ b \notin Bufs THEN count ELSE [count EXCEPT ![b] = @ + 1]

Say == /\ Idle /\ More
       /\ count' = Arrives(cur)
       /\ hist' = Append(hist, "say")
       /\ UNCHANGED <<stack, cur, bad, want, saved, call>>

Begin(sup, fail) ==
  /\ Idle /\ More
  /\ call' = [sup |-> sup, fail |-> fail, before |-> count, wrote |-> FALSE]
  /\ saved' = <<cur, bad>>
  /\ IF sup THEN cur' = Own /\ bad' = FALSE ELSE UNCHANGED <<cur, bad>>
  /\ hist' = Append(hist, (IF sup THEN "quiet" ELSE "loud") \o (IF fail THEN "-fail" ELSE ""))
  /\ UNCHANGED <<stack, want, count>>

\* progress and report, to whatever is in place
Write == /\ ~ Idle /\ ~ call.wrote
         /\ count' = Arrives(cur)
         /\ call' = [call EXCEPT !.wrote = TRUE]
         /\ UNCHANGED <<stack, cur, bad, want, saved, hist>>

\* the call returns, or raises - at any point: before or after it wrote
End == /\ ~ Idle /\ (call.wrote \/ call.fail)
       /\ cur' = saved[1] /\ bad' = saved[2] /\ saved' = <<>> /\ call' = <<>>
       /\ UNCHANGED <<stack, want, count, hist>>

Next == Install \/ Remove \/ Break \/ Mend \/ Say \/ Write \/ End
        \/ \E s, f \in BOOLEAN : Begin(s, f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Write \/ End)

Restored == Idle => cur = Top /\ bad = want
Silent == ~ Idle /\ call.sup => count = call.before
OnlyTop == \A b \in Bufs : ~ Idle /\ b # Top => count[b] = call.before[b]
EveryCallEnds == (~ Idle) ~> Idle
===============================================================================
