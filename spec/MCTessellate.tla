----------------------------- MODULE MCTessellate -----------------------------
(* Exhaustive instances of Tessellate: all chunk sizes, thread counts,        *)
(* starting resources and needs of the cells within the given sets.           *)
EXTENDS Tessellate
CONSTANTS N0, Chunks, Threads, Ks, Ps, Ts, Needs, Recs

Pts0 == 0..(N0 - 1)
NeedsPlain == { <<1, 7, 8>>, <<3, 9, 12>> }
NeedsHard  == { <<1, 6, 8>>, <<2, 8, 10>>, <<9, 9, 14>> }
NeedsOver  == { <<1, 6, 8>>, <<2, 40, 10>>, <<3, 9, 80>>, <<9, 9, 14>> }
Init == \E nd \in [Pts -> Needs], k \in Ks, p \in Ps, t \in Ts, ch \in Chunks,
           th \in Threads, rc \in Recs :
          Begin([need |-> nd, k |-> k, p |-> p, t |-> t, chunk |-> ch,
                 threads |-> th, rec |-> rc])
Spec == Init /\ [][Next]_vars /\ Fairness
===============================================================================
