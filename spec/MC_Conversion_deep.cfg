SPECIFICATION Spec
CONSTANTS NAct = 3
 MaxRows = 3
 Grid = 8
INVARIANTS OneHotRows RoundTrip
CHECK_DEADLOCK FALSE
