SPECIFICATION Spec
CONSTANTS NAct = 2
 MaxRows = 3
 Grid = 8
INVARIANTS OneHotRows RoundTrip Emit
CHECK_DEADLOCK FALSE
