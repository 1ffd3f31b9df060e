------------------------------- MODULE CliTrace -------------------------------
(***************************************************************************)
(* Runs of the program against Cli.  A record has the options by effect,   *)
(* the files they may name (kind and points), and what was observed: exit  *)
(* status, standard error, the calls the program made of the library with  *)
(* parameters, device, points and rows, and the rows on standard output.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT TraceFile
Runs == ndJsonDeserialize(TraceFile)
Keys == 1..10
Defaults == <<64, 0, 1, 8196, 0, 0, 16, 32, 32, 1>>
C == INSTANCE Cli WITH NumKeys <- Keys, FlagKeys <- {}, Vals <- {}, Devices <- {}, Files <- {},
                       Steps <- 0, par <- 0, dev <- 0, file <- 0, argv <- 0, result <- 0

VARIABLES r, l, par, dev, file, how
vars == <<r, l, par, dev, file, how>>
Rec == Runs[r]
Opt == Rec.opts[l]

Init == r \in 1..Len(Runs) /\ l = 1 /\ par = Defaults /\ dev = "cpu" /\ file = 0 /\ how = ""

Parse == /\ how = "" /\ l <= Len(Rec.opts)
         /\ l' = l + 1
         /\ par' = IF Opt.what = "par" THEN C!Apply(par, Opt.key, Opt.val) ELSE par
         /\ dev' = IF Opt.what = "device" THEN Opt.dev ELSE dev
         /\ file' = IF Opt.what = "file" THEN Opt.val ELSE file
         /\ UNCHANGED <<r, how>>

\* an initial k of 0 stands for the default, or all points where there are fewer
N == Len(Rec.files[file].pts) \div 3
Pars == IF par[1] # 0 THEN { par }
        ELSE { [par EXCEPT ![1] = v] : v \in { Defaults[1], IF N < Defaults[1] THEN N ELSE Defaults[1] } }

Good == file # 0 /\ Rec.files[file].kind = "good"
Why ==
  CASE Rec.end # "exit" -> "the program died (" \o Rec.end \o ")"
    [] ~ Good /\ Rec.status = 0 -> "no points to read, but exit status 0"
    [] ~ Good /\ ~ Rec.err -> "no points to read, but nothing on standard error"
    [] ~ Good /\ Rec.braces -> "no points to read, but rows are printed"
    [] ~ Good -> ""
    [] Rec.status # 0 -> "exit status " \o ToString(Rec.status)
    [] Rec.probed /\ Len(Rec.calls) # 1 -> ToString(Len(Rec.calls)) \o " calls of the library"
    [] Rec.probed /\ Rec.calls[1].par \notin Pars -> "parameters " \o ToString(Rec.calls[1].par) \o
                                               " instead of " \o ToString(par)
    [] Rec.probed /\ Rec.calls[1].dev # dev -> "device " \o Rec.calls[1].dev
    [] Rec.probed /\ Rec.calls[1].pts # Rec.files[file].pts -> "other points than in the file"
    [] Rec.probed /\ Rec.printed # Rec.calls[1].rows -> "other rows printed than returned"
    [] Len(Rec.printed) * 3 # Len(Rec.files[file].pts) -> "not one row per point"
    [] OTHER -> ""

Finish == /\ how = "" /\ l > Len(Rec.opts)
          /\ \E w \in { Why } :
               /\ (w # "" => PrintT("REJECT |" \o Rec.id \o "|" \o w))
               /\ PrintT("DONE |" \o Rec.id \o "|" \o (IF Good THEN "rows" ELSE "error"))
          /\ how' = "end" /\ UNCHANGED <<r, l, par, dev, file>>
Next == Parse \/ Finish
Spec == Init /\ [][Next]_vars
===============================================================================
