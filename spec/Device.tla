-------------------------------- MODULE Device --------------------------------
(***************************************************************************)
(* The device pass of a call: the points are handled in chunks; for each   *)
(* chunk the host clears the working buffers, launches one kernel of       *)
(* groups * ndsize work items (the surplus items do nothing), and reads    *)
(* the rows back out of the interleaved buffer.                            *)
(*                                                                         *)
(* Work items run in any order and interleaved with one another; the only  *)
(* thing shared is memory.  What an item writes is marked with its point,  *)
(* and it has to find its own marks again in its second step.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ns, Chunks, NdSizes, Ks, PM, TM   \* PM, TM: planes/vertices per item

VARIABLES cfg, run, phase, step, mem, heap, rows
vars == <<cfg, run, phase, step, mem, heap, rows>>

None == -1
N == cfg.n
Chunked == cfg.chunk > 0 /\ cfg.chunk < N
NRuns == IF Chunked THEN N \div cfg.chunk + 1 ELSE 1
Sub0 == IF Chunked THEN cfg.chunk ELSE N          \* slots allocated
Lo(r) == IF Chunked THEN r * cfg.chunk ELSE 0
Hi(r) == IF r = NRuns - 1 THEN N ELSE Lo(r) + cfg.chunk
Sub(r) == Hi(r) - Lo(r)                             \* slots of this run
Groups(r) == (Sub(r) + cfg.nd - 1) \div cfg.nd
Items(r) == 0..(Groups(r) * cfg.nd - 1)
Live(r) == 0..(Sub(r) - 1)

\* where item g keeps its data in run r
HeapAt(r, g) == { i * Sub(r) + g : i \in 0..(cfg.k - 1) }
PlaneAt(r, g) == { 4 * Sub(r) * j + Sub(r) * x + g : j \in 0..(PM - 1), x \in 0..3 }
VertAt(r, g) == { 3 * TM * g + 3 * j + x : j \in 0..(TM - 1), x \in 0..2 }
LocalAt(g) == { PM * (g % cfg.nd) + j : j \in 0..(PM - 1) }
StateAt(r, g) == { Lo(r) + g }

\* every element item g touches, with the buffer it is in
Touches(r, g) == ({"heap"} \X HeapAt(r, g)) \cup ({"plane"} \X PlaneAt(r, g))
                 \cup ({"vert"} \X VertAt(r, g)) \cup ({"state"} \X StateAt(r, g))
                 \cup ({ "local" } \X { (g \div cfg.nd) * 1000 + a : a \in LocalAt(g) })
Size(b) == CASE b = "heap" -> Sub0 * cfg.k
             [] b = "plane" -> Sub0 * PM * 4
             [] b = "vert" -> Sub0 * TM * 3
             [] b = "state" -> N
InRange(r, g) == \A t \in Touches(r, g) :
                   IF t[1] = "local" THEN t[2] % 1000 < cfg.nd * PM ELSE t[2] < Size(t[1])

Init == /\ \E n \in Ns, c \in Chunks, nd \in NdSizes, k \in Ks :
             cfg = [n |-> n, chunk |-> c, nd |-> nd, k |-> k]
        /\ run = 0 /\ phase = "host"
        /\ step = << >> /\ mem = << >> /\ heap = << >>
        /\ rows = [ i \in 0..(cfg.n - 1) |-> None ]

Launch == /\ phase = "host" /\ run < NRuns /\ Sub(run) > 0
          /\ phase' = "kernel"
          /\ step' = [ g \in Items(run) |-> 0 ]
          /\ mem' = { }                  \* <<buffer, element, point>> written
          /\ heap' = [ a \in 0..(Size("heap") - 1) |-> None ]
          /\ UNCHANGED <<cfg, run, rows>>

Surplus(g) == /\ phase = "kernel" /\ step[g] = 0 /\ g \notin Live(run)
              /\ step' = [step EXCEPT ![g] = 2]
              /\ UNCHANGED <<cfg, run, phase, mem, heap, rows>>

\* first step: search, fills the heap segment and the initial cell
First(g) ==
  /\ phase = "kernel" /\ g \in Live(run) /\ step[g] = 0
  /\ step' = [step EXCEPT ![g] = 1]
  /\ mem' = { m \in mem : <<m[1], m[2]>> \notin Touches(run, g) }
            \cup { <<t[1], t[2], Lo(run) + g>> : t \in Touches(run, g) }
  /\ heap' = [ a \in DOMAIN heap |-> IF a \in HeapAt(run, g) THEN Lo(run) + g ELSE heap[a] ]
  /\ UNCHANGED <<cfg, run, phase, rows>>

\* second step: clip, from what the first step left
Second(g) ==
  /\ phase = "kernel" /\ g \in Live(run) /\ step[g] = 1
  /\ step' = [step EXCEPT ![g] = 2]
  /\ UNCHANGED <<cfg, run, phase, mem, heap, rows>>

Gather == /\ phase = "kernel" /\ \A g \in Items(run) : step[g] = 2
          /\ rows' = [ i \in 0..(N - 1) |->
                         IF Lo(run) <= i /\ i < Hi(run)
                         THEN LET own == { heap[x * Sub(run) + (i - Lo(run))] : x \in 0..(cfg.k - 1) }
                              IN  IF Cardinality(own) = 1 THEN CHOOSE o \in own : TRUE ELSE None
                         ELSE rows[i] ]
          /\ phase' = "host" /\ run' = run + 1
          /\ UNCHANGED <<cfg, step, mem, heap>>

Skip == /\ phase = "host" /\ run < NRuns /\ Sub(run) = 0
        /\ run' = run + 1
        /\ UNCHANGED <<cfg, phase, step, mem, heap, rows>>

Next == Launch \/ Gather \/ Skip
        \/ (phase = "kernel" /\ \E g \in Items(run) : Surplus(g) \/ First(g) \/ Second(g))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-------------------------------------------------------------------------------
Inside == phase = "kernel" => \A g \in Live(run) : InRange(run, g)
Disjoint == phase = "kernel" =>
              \A g, h \in Live(run) : g # h => Touches(run, g) \cap Touches(run, h) = {}
\* an item finds what it wrote itself, whatever ran in between
Intact == phase = "kernel" =>
            \A g \in Live(run) : step[g] = 1 =>
              \A t \in Touches(run, g) : <<t[1], t[2], Lo(run) + g>> \in mem
AllRows == run >= NRuns => \A i \in 0..(N - 1) : rows[i] = i
Ends == <>(run >= NRuns)
===============================================================================
