------------------------------ MODULE MCStdout ------------------------------
(* Exhaustive instance; Tell prints every complete history for replay.      *)
EXTENDS Stdout, TLC
Tell == Idle /\ Len(hist) = Steps => PrintT("HIST |" \o ToString(hist))
=============================================================================
