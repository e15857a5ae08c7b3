CONSTANTS N = 0
 Confs = {1}
 Modules = {1}
 Files = {1}
INIT InitG
NEXT Still
INVARIANT EmitW
CHECK_DEADLOCK FALSE
