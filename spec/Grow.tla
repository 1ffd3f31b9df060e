--------------------------------- MODULE Grow ---------------------------------
(***************************************************************************)
(* The recompute pass ends, for numbers of any size.  In each round the    *)
(* candidates k double up to KMax; the space for planes and vertices       *)
(* doubles when some cell ran out of it; with all candidates taken, a      *)
(* further round is made only while a cell ran out of space that can still *)
(* grow.  What the cells of a round report is left open.  Apalache proves  *)
(* that each round makes the measure (candidates missing, space missing)   *)
(* smaller, so that there are finitely many, and that no number leaves the *)
(* range it starts in or doubles into.                                     *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  KMax,
  \* @type: Int;
  PLimit,
  \* @type: Int;
  TLimit

VARIABLES
  \* @type: Int;
  k,
  \* @type: Int;
  p,
  \* @type: Int;
  t,
  \* @type: Bool;
  overp,   \* some cell of the last round ran out of planes
  \* @type: Bool;
  overt,   \* of vertices
  \* @type: Bool;
  open,    \* some cell is not certified
  \* @type: Bool;
  ended

vars == <<k, p, t, overp, overt, open, ended>>

ConstInit == KMax \in Nat /\ KMax > 0 /\ PLimit \in Nat /\ PLimit > 0
             /\ TLimit \in Nat /\ TLimit > 0

TypeOK == /\ k \in Int /\ p \in Int /\ t \in Int
          /\ overp \in BOOLEAN /\ overt \in BOOLEAN /\ open \in BOOLEAN /\ ended \in BOOLEAN

\* after the first pass: anything may have happened
Init == /\ TypeOK /\ 0 < k /\ k <= KMax /\ 0 < p /\ 0 < t /\ ~ ended
        /\ ((overp \/ overt) => open)

\* a cell that is out of space is not certified
Report == /\ overp' \in BOOLEAN /\ overt' \in BOOLEAN /\ open' \in BOOLEAN
          /\ ((overp' \/ overt') => open')

Round == /\ ~ ended /\ open
         /\ k' = IF 2 * k > KMax THEN KMax ELSE 2 * k
         /\ p' = IF overp THEN 2 * p ELSE p
         /\ t' = IF overt THEN 2 * t ELSE t
         /\ Report
         /\ ended' = (k' >= KMax /\ ~ (overp' /\ p' < PLimit) /\ ~ (overt' /\ t' < TLimit))

Stop == /\ ~ ended /\ ~ open /\ ended' = TRUE /\ UNCHANGED <<k, p, t, overp, overt, open>>

Next == Round \/ Stop \/ (ended /\ UNCHANGED vars)

-------------------------------------------------------------------------------
Inv == /\ 0 < k /\ k <= KMax /\ 0 < p /\ 0 < t

IndInit == TypeOK /\ Inv

Missing(x, lim) == IF x < lim THEN lim - x ELSE 0

(* Each round but the last two makes the measure smaller: either k grows,  *)
(* or - with all candidates - some space that is still short.              *)
Progress ==
  (~ ended /\ ~ ended') =>
     \/ KMax - k' < KMax - k
     \/ k = KMax /\ k' = KMax /\
          \/ Missing(p', PLimit) + Missing(t', TLimit) < Missing(p, PLimit) + Missing(t, TLimit)
          \* the first of those rounds may come from a state in which nothing was short
          \/ ~ (overp /\ p < PLimit) /\ ~ (overt /\ t < TLimit)
\* which happens once: a round that goes on with all candidates is short of something
Again == (~ ended /\ ended' = FALSE /\ k' = KMax) => ((overp' /\ p' < PLimit) \/ (overt' /\ t' < TLimit))
===============================================================================
