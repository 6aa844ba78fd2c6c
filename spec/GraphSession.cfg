INIT Init
NEXT Next
VIEW Vw
CHECK_DEADLOCK FALSE
