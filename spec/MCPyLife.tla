------------------------------- MODULE MCPyLife -------------------------------
EXTENDS PyLife, TLC
Tell == Len(hist) = Steps => PrintT("HIST |" \o ToString(hist))
===============================================================================
