-------------------------------- MODULE PyLife --------------------------------
(***************************************************************************)
(* Python objects of the module and the memory behind them.  A result owns *)
(* its memory; a row is a view into it, and a parameter handle a view into *)
(* a parameter set.  Memory goes away when nothing refers to it any more;  *)
(* a view has to keep what it looks into.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Owners, Views, Steps
VARIABLES mem, held, view, next, hist
\* mem: memory in existence; held: owner name -> memory or 0
\* view: view name -> memory or 0; next: the next piece of memory
vars == <<mem, held, view, next, hist>>

Init == mem = {} /\ held = [ o \in Owners |-> 0 ] /\ view = [ v \in Views |-> 0 ]
        /\ next = 1 /\ hist = <<>>
More == Len(hist) < Steps
Live(h, v) == { m \in 1..next : (\E o \in Owners : h[o] = m) \/ (\E x \in Views : v[x] = m) }

Make(o) == /\ More /\ held' = [held EXCEPT ![o] = next] /\ next' = next + 1
           /\ view' = view /\ mem' = (mem \cup {next}) \cap Live(held', view')
           /\ hist' = Append(hist, <<"make", o, 0>>)
View(v, o) == /\ More /\ held[o] # 0 /\ view' = [view EXCEPT ![v] = held[o]]
              /\ UNCHANGED <<held, next>> /\ mem' = mem \cap Live(held', view')
              /\ hist' = Append(hist, <<"view", v, o>>)
Drop(o) == /\ More /\ held[o] # 0 /\ held' = [held EXCEPT ![o] = 0]
           /\ UNCHANGED <<view, next>> /\ mem' = mem \cap Live(held', view')
           /\ hist' = Append(hist, <<"drop", o, 0>>)
Forget(v) == /\ More /\ view[v] # 0 /\ view' = [view EXCEPT ![v] = 0]
             /\ UNCHANGED <<held, next>> /\ mem' = mem \cap Live(held', view')
             /\ hist' = Append(hist, <<"forget", v, 0>>)
Read(v) == /\ More /\ view[v] # 0 /\ UNCHANGED <<mem, held, view, next>>
           /\ hist' = Append(hist, <<"read", v, 0>>)
Next == \/ \E o \in Owners : Make(o) \/ Drop(o)
        \/ \E v \in Views, o \in Owners : View(v, o)
        \/ \E v \in Views : Forget(v) \/ Read(v)
Spec == Init /\ [][Next]_vars

Valid == \A v \in Views : view[v] # 0 => view[v] \in mem
NoLeak == \A m \in mem : m \in Live(held, view)
===============================================================================
