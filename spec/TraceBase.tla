---- MODULE TraceBase ----
EXTENDS Integers, Sequences, TLC, Json
(* Generic trace validation: every recorded trace is an initial state; each recorded event must
   be accepted by Verdict ("" or the name of the violated clause) and advances the
   specification state with Apply.  The verdict is total: each trace ends in OK or BAD. *)
CONSTANTS Traces, Start(_), Verdict(_,_,_), Apply(_,_,_)
VARIABLES t, l, st, bad
Init == \E k \in 1..Len(Traces): t = k /\ l = 0 /\ st = Start(Traces[k].cfg) /\ bad = FALSE
Next == /\ ~bad
        /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l+1]
               c == Traces[t].cfg
               v == IF e.ev = "crash" THEN "crash" ELSE Verdict(c, st, e)
           IN /\ t' = t /\ l' = l + 1
              /\ IF v = "" THEN bad' = FALSE /\ st' = Apply(c, st, e)
                                /\ (IF l + 1 = Len(Traces[t].ev) THEN PrintT("OK " \o ToString(t)) ELSE TRUE)
                 ELSE bad' = TRUE /\ st' = st /\ PrintT("BAD " \o ToJson([t |-> t, l |-> l+1, c |-> v]))
====
