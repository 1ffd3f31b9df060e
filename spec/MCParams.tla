------------------------------- MODULE MCParams -------------------------------
EXTENDS Params, TLC
Tell == Len(hist) = Steps => PrintT("HIST |" \o ToString(hist))
===============================================================================
