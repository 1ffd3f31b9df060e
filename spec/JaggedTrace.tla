------------------------------ MODULE JaggedTrace ------------------------------
(***************************************************************************)
(* Observations of the real container: given the rows it was built from    *)
(* (or, for a tessellation, the number of points), what its members yield. *)
(* A record is a sequence of looks; between looks an element is assigned.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT TraceFile
Recs == ndJsonDeserialize(TraceFile)
J == INSTANCE Jagged WITH Vals <- {}, MaxRows <- 0, MaxLen <- 0, Steps <- 0,
                          rows <- 0, list <- 0, offs <- 0, n <- 0
VARIABLES r, l, rows, how
vars == <<r, l, rows, how>>
Rec == Recs[r]
Look == Rec.looks[l]

Init == r \in 1..Len(Recs) /\ l = 1 /\ how = "" /\ rows = Recs[r].rows

\* what the looks should show
Want == IF Rec.made THEN J!Lines(Look.list, Look.offs)      \* built by the library
        ELSE IF Look.edit = <<>> THEN rows
        ELSE [rows EXCEPT ![Look.edit[1] + 1] = [@ EXCEPT ![Look.edit[2] + 1] = Look.edit[3]]]

Why ==
  CASE Rec.end # "return" -> "the program died (" \o Rec.end \o ")"
    [] ~ J!WellFormed(Look.list, Look.offs) -> "the offsets do not partition the list"
    [] Rec.made /\ Look.size # Rec.n -> "not one row per point"
    [] Look.size # Len(Want) -> "size() is " \o ToString(Look.size)
    [] Look.rows # Want -> "rows read as " \o ToString(Look.rows)
    [] Look.crows # Want -> "rows of the const container read as " \o ToString(Look.crows)
    [] Look.printed # Want -> "printed as " \o ToString(Look.printed)
    [] Look.saved # Want -> "saved as " \o ToString(Look.saved)
    [] OTHER -> ""

Step == /\ how = "" /\ l <= Len(Rec.looks)
        /\ IF Why = "" THEN how' = "" /\ rows' = Want
           ELSE /\ PrintT("REJECT |" \o Rec.id \o "|look " \o ToString(l) \o ": " \o Why)
                /\ how' = "rejected" /\ UNCHANGED rows
        /\ l' = l + 1 /\ UNCHANGED r
Done == /\ how # "end" /\ (how = "rejected" \/ l > Len(Rec.looks))
        /\ PrintT("DONE |" \o Rec.id \o "|" \o ToString(l - 1))
        /\ how' = "end" /\ UNCHANGED <<r, l, rows>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
