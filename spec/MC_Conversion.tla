--------------------------- MODULE MC_Conversion ---------------------------
(* Every batch of up to MaxRows rows over NAct actions, and every action on a grid. *)
EXTENDS Conversion, TLC, Json
CONSTANTS NAct, MaxRows, Grid
VARIABLES rows, done
Rows == [action : 0..NAct-1, next_action : 0..NAct-1, terminal : BOOLEAN]
Init == rows = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(rows) < MaxRows /\ \E r \in Rows : rows' = Append(rows, r) /\ UNCHANGED done
        \/ ~done /\ rows # <<>> /\ done' = TRUE /\ UNCHANGED rows
Spec == Init /\ [][Next]_<<rows, done>>
Full(r) == [state |-> <<>>, next_state |-> <<>>, reward |-> 0, prob |-> 0, mask |-> <<>>, next_mask |-> <<>>,
            action |-> r.action, next_action |-> r.next_action, terminal |-> r.terminal]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
OneHotRows == \A i \in 1..Len(rows) : LET d == Discrete(NAct, Full(rows[i])) IN
                Sum(d.action) = 1 /\ (Sum(d.next_action) = 0 <=> rows[i].terminal)
RoundTrip == \A lo \in {-24, -8, 0, 8} : \A w \in {8, 16, 32} : \A k \in 0..Grid :
               LET v == lo + (w * k) \div Grid IN
               LET m == Rescale(v, lo, lo + w, -64, 64) IN m >= -64 /\ m <= 64 /\ Rescale(m, -64, 64, lo, lo + w) = v
Emit == done => PrintT("GEN " \o ToJson([rows |-> rows]))
=============================================================================
