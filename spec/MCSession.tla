------------------------------- MODULE MCSession -------------------------------
EXTENDS Session, TLC
MCOps == {"valid", "on", "less"}
MCCalls(op) == IF op = "valid" THEN {"on", "less"} ELSE IF op = "on" THEN {"less"} ELSE {}
=============================================================================
