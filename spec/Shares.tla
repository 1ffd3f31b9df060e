-------------------------------- MODULE Shares --------------------------------
(***************************************************************************)
(* How the points of a call are handed out, for numbers of any size: N     *)
(* points in chunks of C, each chunk shared out among W workers, the last  *)
(* worker taking what is left over.  The share may be that of the chunk    *)
(* itself or, in a last chunk that is shorter, still that of a whole one:  *)
(* some workers then go over slots the chunk before has left, to no        *)
(* effect.  Followed is one point X, whichever: at the end it has been     *)
(* computed exactly once in its own chunk, and no worker ever went beyond  *)
(* the slots there is storage for.                                         *)
(*                                                                         *)
(* Module Tessellate has the same arithmetic with small numbers, and       *)
(* everything else; here Apalache proves an inductive invariant, for all   *)
(* values of the constants.                                                *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  N,
  \* @type: Int;
  C,
  \* @type: Int;
  W,
  \* @type: Int;
  X

VARIABLES
  \* @type: Int;
  lo,     \* first point of the chunk
  \* @type: Int;
  size,   \* points in it
  \* @type: Int;
  q,      \* share of a worker
  \* @type: Int;
  w,      \* workers that have got theirs
  \* @type: Int;
  blo,    \* first slot of the next worker
  \* @type: Int;
  times,  \* how often X was computed in its chunk
  \* @type: Int;
  most    \* one more than the last slot anyone worked in


Room == IF C > 0 /\ C < N THEN C ELSE N      \* slots there is storage for

ConstInit == N \in Nat /\ C \in Int /\ W \in Nat /\ W > 0 /\ X \in Nat /\ X < N

SizeAt(l) == IF N - l < Room THEN N - l ELSE Room
Share(n) == n \div W
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ lo = 0 /\ size = SizeAt(0) /\ q = Share(SizeAt(0))
        /\ w = 0 /\ blo = 0 /\ times = 0 /\ most = 0

\* the next worker gets the slots blo .. bhi - 1
Give == /\ w < W
        /\ LET bhi == IF w = W - 1 THEN size ELSE blo + q
           IN  /\ blo' = Max(blo, bhi)
               /\ times' = IF blo <= X - lo /\ X - lo < bhi /\ X - lo < size
                           THEN times + 1 ELSE times
               /\ most' = Max(most, bhi)
        /\ w' = w + 1
        /\ UNCHANGED <<lo, size, q>>

NextChunk == /\ w = W /\ lo + size < N
             /\ lo' = lo + size
             /\ size' = SizeAt(lo + size)
             /\ \/ q' = Share(SizeAt(lo + size))
                \/ q' = Share(Room)
             /\ w' = 0 /\ blo' = 0
             /\ UNCHANGED <<times, most>>

Finished == w = W /\ lo + size >= N

Next == Give \/ NextChunk \/ (Finished /\ UNCHANGED <<lo, size, q, w, blo, times, most>>)

-------------------------------------------------------------------------------
TypeOK == /\ lo \in Int /\ size \in Int /\ q \in Int /\ w \in Int /\ blo \in Int
          /\ times \in Int /\ most \in Int

Inv == /\ 0 <= lo /\ lo < N /\ size = SizeAt(lo) /\ 0 < size
       /\ q = Share(size) \/ q = Share(Room)
       /\ 0 <= w /\ w <= W
       /\ IF w < W THEN blo = w * q ELSE blo >= size
       /\ 0 <= blo /\ blo <= Room
       /\ times = IF X < lo + Min(blo, size) THEN 1 ELSE 0
       /\ 0 <= most /\ most <= Room

IndInit == TypeOK /\ Inv
Once == (Finished => times = 1) /\ most <= Room
===============================================================================
