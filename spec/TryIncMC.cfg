INIT Init
NEXT Next
INVARIANTS Lands First Residues Exact
CHECK_DEADLOCK FALSE
