---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command line: a sequence of options, each of which sets one thing;  *)
(* then the input file is read and the library called with what has been   *)
(* set.  Options are given by their effect: the key and the value; how an  *)
(* option is spelt (short, long, joined, clustered) makes no difference.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS NumKeys,    \* keys that take a number
          FlagKeys,   \* switches
          Vals, Devices, Files, Steps

VARIABLES par, dev, file, argv, result
vars == <<par, dev, file, argv, result>>

Keys == NumKeys \cup FlagKeys
Unset == 0

Apply(p, k, v) == [p EXCEPT ![k] = v]

Init == /\ par = [ k \in Keys |-> Unset ] /\ dev = "cpu" /\ file = "" /\ argv = <<>>
        /\ result = "parsing"

More == result = "parsing" /\ Len(argv) < Steps
Number(k, v) == /\ More /\ par' = Apply(par, k, v) /\ argv' = Append(argv, <<k, v>>)
                /\ UNCHANGED <<dev, file, result>>
Flag(k) == /\ More /\ par' = Apply(par, k, 1) /\ argv' = Append(argv, <<k, 1>>)
           /\ UNCHANGED <<dev, file, result>>
Device(d) == /\ More /\ dev' = d /\ argv' = Append(argv, <<"device", d>>)
             /\ UNCHANGED <<par, file, result>>
File(f) == /\ More /\ file' = f /\ argv' = Append(argv, <<"file", f>>)
           /\ UNCHANGED <<par, dev, result>>
\* good: points; bad: a line that is not three numbers; none: no such file
Run == /\ result = "parsing"
       /\ result' = IF file = "good" THEN "rows" ELSE "error"
       /\ UNCHANGED <<par, dev, file, argv>>

Next == \/ \E k \in NumKeys, v \in Vals : Number(k, v)
        \/ \E k \in FlagKeys : Flag(k)
        \/ \E d \in Devices : Device(d)
        \/ \E f \in Files : File(f)
        \/ Run
Spec == Init /\ [][Next]_vars

\* what is in force follows from the last option for each thing
LastOf(k) == LET js == { j \in 1..Len(argv) : argv[j][1] = k }
             IN  IF js = {} THEN 0 ELSE CHOOSE j \in js : \A i \in js : i <= j
LastWins == /\ \A k \in Keys : par[k] = IF LastOf(k) = 0 THEN Unset ELSE argv[LastOf(k)][2]
            /\ dev = IF LastOf("device") = 0 THEN "cpu" ELSE argv[LastOf("device")][2]
            /\ file = IF LastOf("file") = 0 THEN "" ELSE argv[LastOf("file")][2]
RowsOnlyForPoints == result = "rows" => file = "good"
===============================================================================
