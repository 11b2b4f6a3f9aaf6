SPECIFICATION Spec
VIEW Vw
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANT File = "trace.ndjson"
