-------------------------------- MODULE Params --------------------------------
(***************************************************************************)
(* Parameter sets.  Objects hold a value for every known key; the values   *)
(* are opaque here (what a read in some type has to yield for a value is   *)
(* decided in ParamsTrace).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Objs, Keys, Unknown, Vals, Steps
VARIABLES store, out, hist
vars == <<store, out, hist>>

Default(k) == 100 + k
Fresh == [ k \in Keys |-> Default(k) ]

\* the operations, as functions of the store
DoSet(s, o, k, v) == IF k \in Keys THEN [s EXCEPT ![o] = [@ EXCEPT ![k] = v]] ELSE s
DoCopy(s, o, p) == [s EXCEPT ![p] = s[o]]
DoMove(s, o, k, p, q) == DoSet(s, o, k, s[p][q])      \* a[k] = b[q]
DoNew(s, o) == [s EXCEPT ![o] = Fresh]

Init == store = [ o \in Objs |-> Fresh ] /\ out = <<>> /\ hist = <<>>
More == Len(hist) < Steps

Set(o, k, v) == /\ More /\ store' = DoSet(store, o, k, v)
                /\ out' = IF k \in Keys THEN <<"ok">> ELSE <<"error">>
                /\ hist' = Append(hist, <<"set", o, k, v>>)
Get(o, k) == /\ More /\ store' = store
             /\ out' = IF k \in Keys THEN <<"value", store[o][k]>> ELSE <<"error">>
             /\ hist' = Append(hist, <<"get", o, k>>)
Copy(o, p) == /\ More /\ o # p /\ store' = DoCopy(store, o, p) /\ out' = <<"ok">>
              /\ hist' = Append(hist, <<"copy", o, p>>)
Move(o, k, p, q) == /\ More /\ <<o, k>> # <<p, q>>
                    /\ store' = DoMove(store, o, k, p, q) /\ out' = <<"ok">>
                    /\ hist' = Append(hist, <<"move", o, k, p, q>>)
New(o) == /\ More /\ store' = DoNew(store, o) /\ out' = <<"ok">>
          /\ hist' = Append(hist, <<"new", o>>)
Call(o) == /\ More /\ store' = store /\ out' = <<"ok">>
           /\ hist' = Append(hist, <<"call", o>>)
\* the program's surroundings change (its locale): no concern of the parameters
World(o) == /\ More /\ store' = store /\ out' = <<"ok">>
            /\ hist' = Append(hist, <<"locale", o>>)

Next == \/ \E o \in Objs, k \in Keys \cup Unknown, v \in Vals : Set(o, k, v)
        \/ \E o \in Objs, k \in Keys \cup Unknown : Get(o, k)
        \/ \E o, p \in Objs : Copy(o, p) \/ \E k, q \in Keys : Move(o, k, p, q)
        \/ \E o \in Objs : New(o) \/ Call(o) \/ World(o)
Spec == Init /\ [][Next]_vars

\* The value of a key follows from the history alone: the last assignment to
\* it in this object, or in the one it was last copied from.
RECURSIVE Last(_, _, _)
Last(n, o, k) ==
  IF n = 0 THEN Default(k)
  ELSE LET e == hist[n]
       IN  CASE e[1] = "set" /\ e[2] = o /\ e[3] = k -> e[4]
             [] e[1] = "move" /\ e[2] = o /\ e[3] = k -> Last(n - 1, e[4], e[5])
             [] e[1] = "copy" /\ e[3] = o -> Last(n - 1, e[2], k)
             [] e[1] = "new" /\ e[2] = o -> Default(k)
             [] OTHER -> Last(n - 1, o, k)
ReadsBack == \A o \in Objs, k \in Keys : store[o][k] = Last(Len(hist), o, k)
KeysFixed == \A o \in Objs : DOMAIN store[o] = Keys
OneAtATime == [][Cardinality({ <<o, k>> \in Objs \X Keys : store'[o][k] # store[o][k] }) > 1
                 => hist'[Len(hist')][1] \in {"copy", "new"}]_vars
===============================================================================
