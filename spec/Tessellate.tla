------------------------------ MODULE Tessellate ------------------------------
(***************************************************************************)
(* One call of the library: how the points are handed out in chunks to     *)
(* workers, what the workers do to the shared working storage, how rows    *)
(* are committed, how incomplete cells are recomputed, and what the report *)
(* counts.                                                                 *)
(*                                                                         *)
(* Geometry is abstracted: need[i] = <<kn, pn, tn>> are the candidates,    *)
(* planes and vertices with which the cell of point i can be certified     *)
(* (kn > N - 1: it never can), and Outcome says what a computation with    *)
(* given resources yields.  Module Cell is the refinement of Outcome.      *)
(*                                                                         *)
(* The storage of a slot is one cell of `store`; a worker first writes the *)
(* candidates of its point there (Search) and then turns them into a row   *)
(* (Clip).  If two workers met in one slot, a row of the wrong point would *)
(* be committed.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Pts,        \* set of points, 0..N-1
  MaxP, MaxT  \* hard limits of the data types for planes and vertices

VARIABLES
  cfg,     \* [need, k, p, t, chunk (0: none), threads, rec]
  stage,   \* "between", "round", "report", "end"
  pass,    \* "chunk" or "recompute"
  run,     \* number of the next chunk
  list,    \* points of this round, by slot
  plan,    \* worker -> slots it still has to do, in order
  at,      \* worker -> <<slot, "searched">> or <<>>
  store,   \* slot -> what is in its storage
  res,     \* resources of this round <<k, p, t>>
  flags,   \* point -> set of flags
  rows,    \* point -> committed row
  rep      \* the report

vars == <<cfg, stage, pass, run, list, plan, at, store, res, flags, rows, rep>>

N == Cardinality(Pts)
KMax == IF N > 2 THEN N - 1 ELSE 1
MinI(a, b) == IF a < b THEN a ELSE b

\* what computing the cell of i with resources <<k, p, t>> gives
Outcome(i, r) ==
  LET nd == cfg.need[i]
  IN  IF r[2] < MinI(nd[2], 6 + r[1]) THEN [row |-> <<i, "raw">>, fl |-> {"p"}]
      ELSE IF r[3] < nd[3] THEN [row |-> <<i, "raw">>, fl |-> {"t"}]
      ELSE IF r[1] >= nd[1] THEN [row |-> <<i, "full">>, fl |-> {"sr"}]
      ELSE IF r[1] >= KMax THEN [row |-> <<i, "full">>, fl |-> {}]
      ELSE [row |-> <<i, "part", r[1]>>, fl |-> {}]

K0 == MinI(cfg.k, KMax)
Chunked == cfg.chunk > 0 /\ cfg.chunk < N
NRuns == IF Chunked THEN N \div cfg.chunk + 1 ELSE 1
ChunkSize == IF Chunked THEN cfg.chunk ELSE N

\* points of chunk number r (possibly none in the last one)
ChunkList(r) ==
  LET lo == r * ChunkSize
      hi == IF r = NRuns - 1 THEN N ELSE lo + ChunkSize
  IN  [ j \in 1..(hi - lo) |-> lo + j - 1 ]

\* Worker w of W gets a block of slots; the last worker takes the rest.
Block(w, W, n) ==
  LET q == n \div W
      lo == w * q
      hi == IF w = W - 1 THEN n ELSE lo + q
  IN  [ j \in 1..(hi - lo) |-> lo + j ]

Workers == 0..(cfg.threads - 1)

-------------------------------------------------------------------------------
Begin(c) ==
  /\ cfg = c
  /\ stage = "between"
  /\ pass = "chunk"
  /\ run = 0
  /\ list = <<>>
  /\ plan = [ w \in 0..(c.threads - 1) |-> <<>> ]
  /\ at = [ w \in 0..(c.threads - 1) |-> <<>> ]
  /\ store = <<>>
  /\ res = <<0, c.p, c.t>>
  /\ flags = [ i \in Pts |-> {} ]
  /\ rows = [ i \in Pts |-> <<>> ]
  /\ rep = <<>>

StartRound(what, pts, r) ==
  /\ stage' = "round"
  /\ pass' = what
  /\ list' = pts
  /\ plan' = [ w \in Workers |-> Block(w, cfg.threads, Len(pts)) ]
  /\ at' = [ w \in Workers |-> <<>> ]
  /\ store' = [ s \in 1..Len(pts) |-> <<"empty">> ]
  /\ res' = r

StartChunk ==
  /\ stage = "between" /\ pass = "chunk" /\ run < NRuns
  /\ StartRound("chunk", ChunkList(run), <<K0, cfg.p, cfg.t>>)
  /\ run' = run + 1
  /\ UNCHANGED <<cfg, flags, rows, rep>>

Take(w) ==
  /\ stage = "round" /\ at[w] = <<>> /\ plan[w] # <<>>
  /\ at' = [at EXCEPT ![w] = <<Head(plan[w]), "taken">>]
  /\ plan' = [plan EXCEPT ![w] = Tail(@)]
  /\ UNCHANGED <<cfg, stage, pass, run, list, store, res, flags, rows, rep>>

Search(w) ==
  /\ stage = "round" /\ at[w] # <<>> /\ at[w][2] = "taken"
  /\ store' = [store EXCEPT ![at[w][1]] = <<"candidates", list[at[w][1]]>>]
  /\ at' = [at EXCEPT ![w] = <<at[w][1], "searched">>]
  /\ UNCHANGED <<cfg, stage, pass, run, list, plan, res, flags, rows, rep>>

Clip(w) ==
  /\ stage = "round" /\ at[w] # <<>> /\ at[w][2] = "searched"
  /\ LET s == at[w][1]
         o == Outcome(store[s][2], res)
     IN  /\ store' = [store EXCEPT ![s] = <<"row", store[s][2], o.row>>]
         /\ flags' = [flags EXCEPT ![list[s]] = o.fl]
  /\ at' = [at EXCEPT ![w] = <<>>]
  /\ UNCHANGED <<cfg, stage, pass, run, list, plan, res, rows, rep>>

Idle == \A w \in Workers : at[w] = <<>> /\ plan[w] = <<>>

Commit ==
  /\ stage = "round" /\ Idle
  /\ rows' = [ i \in Pts |->
                 IF \E s \in 1..Len(list) : list[s] = i
                 THEN store[CHOOSE s \in 1..Len(list) : list[s] = i][3] ELSE rows[i] ]
  /\ stage' = "between"
  /\ UNCHANGED <<cfg, pass, run, list, plan, at, store, res, flags, rep>>

-------------------------------------------------------------------------------
Incomplete == { i \in Pts : "sr" \notin flags[i] }
Over(f) == \E i \in Incomplete : f \in flags[i]

SeqOf(s) == LET RECURSIVE f(_, _)
                f(i, acc) == IF i >= N THEN acc
                             ELSE f(i + 1, IF i \in s THEN Append(acc, i) ELSE acc)
            IN  f(0, <<>>)

FirstPassDone == run >= NRuns
\* a round with all candidates and nothing left that more space could mend
Hopeless == /\ pass = "recompute" /\ res[1] >= KMax
            /\ (Over("p") => res[2] >= MaxP) /\ (Over("t") => res[3] >= MaxT)

Recompute ==
  /\ stage = "between" /\ FirstPassDone /\ cfg.rec
  /\ Incomplete # {} /\ ~ Hopeless
  /\ StartRound("recompute", SeqOf(Incomplete),
                << MinI(2 * res[1], KMax),
                   IF Over("p") THEN 2 * res[2] ELSE res[2],
                   IF Over("t") THEN 2 * res[3] ELSE res[3] >>)
  /\ UNCHANGED <<cfg, run, flags, rows, rep>>

Report ==
  /\ stage = "between" /\ FirstPassDone
  /\ ~ cfg.rec \/ Incomplete = {} \/ Hopeless
  /\ rep' = << Cardinality(Incomplete),
               Cardinality({ i \in Pts : "p" \in flags[i] }),
               Cardinality({ i \in Pts : "t" \in flags[i] }) >>
  /\ stage' = "end"
  /\ UNCHANGED <<cfg, pass, run, list, plan, at, store, res, flags, rows>>

Next == \/ StartChunk \/ Commit \/ Recompute \/ Report
        \/ \E w \in Workers : Take(w) \/ Search(w) \/ Clip(w)
Fairness == WF_vars(Next)

-------------------------------------------------------------------------------
\* No two workers are ever in the same slot.
Exclusive == \A v, w \in Workers :
               v # w /\ at[v] # <<>> /\ at[w] # <<>> => at[v][1] # at[w][1]

\* Every point is in exactly one slot of a round, and what is committed for
\* it was computed for it.
OwnRows == \A i \in Pts : rows[i] # <<>> => rows[i][1] = i

First(i) == Outcome(i, <<K0, cfg.p, cfg.t>>)

\* C04, C05: what comes out does not depend on chunk, threads or schedule.
ResultFixed ==
  stage = "end" /\ ~ cfg.rec =>
    /\ \A i \in Pts : rows[i] = First(i).row
    /\ rep = << Cardinality({ i \in Pts : "sr" \notin First(i).fl }),
                Cardinality({ i \in Pts : "p" \in First(i).fl }),
                Cardinality({ i \in Pts : "t" \in First(i).fl }) >>

\* C03: with recompute every row is complete (within the hard limits), and
\* the report counts the cells that all points together cannot certify.
Fits(i) == cfg.need[i][2] <= MaxP /\ cfg.need[i][3] <= MaxT
RecomputeComplete ==
  stage = "end" /\ cfg.rec /\ (\A i \in Pts : Fits(i)) =>
    /\ \A i \in Pts : rows[i] = <<i, "full">>
    /\ rep = << Cardinality({ i \in Pts : cfg.need[i][1] > KMax }), 0, 0 >>

\* rows that were complete are not touched again
CompleteStays ==
  [][\A i \in Pts : stage = "between" /\ "sr" \in flags[i] => rows'[i] = rows[i]]_vars

Ends == <>(stage = "end")
===============================================================================
