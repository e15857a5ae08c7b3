---- MODULE P16Trace ----
EXTENDS PolicyGradient, TLC, Json, IOUtils, SequencesExt
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
(* pass: 0 collecting; k: in the k-th pass over the buffer.  cand: possible sets of episodes still unused in this pass;
   drawn: the minibatches a value update may still be about, with the set left after them *)
Start(c) == [th |-> c.th, v |-> c.v, buf |-> <<>>, pass |-> 0, cand |-> {}, drawn |-> {}, edge |-> FALSE]
Tol == 40
Same(x, y) == \A i \in 1..Len(x) : \A a \in 1..Len(x[i]) : Near(y[i][a], x[i][a], Tol)
SameV(x, y) == \A i \in 1..Len(x) : Near(y[i], x[i], Tol)
Pick(s, X) == SetToSeq({<<i, s.buf[i]>> : i \in X})
Episodes(s, X) == LET q == Pick(s, X) IN [i \in 1..Len(q) |-> q[i][2]]
Full(s) == 1..Len(s.buf)
Rem(c, s) == IF s.cand = {} THEN {Full(s)} ELSE s.cand
BatchSize(c, s) == IF c.algo = "ppo" THEN c.batch ELSE Len(s.buf)
Passes(c) == IF c.algo = "ppo" THEN c.epochs ELSE 1
Opts(c, s) == UNION {{<<X, r \ X>> : X \in Draws(r, BatchSize(c, s))} : r \in Rem(c, s)}
Fits(c, s, e) == {o \in Opts(c, s) : Same(Update(c, s.th, s.v, Episodes(s, o[1])), e.th)}
VFits(c, s, e) == {o \in s.drawn : SameV(VUpdate(c, s.v, Episodes(s, o[1])), e.v)}
(* the sets left; a finished pass starts the next *)
Left(s, os) == {o[2] : o \in os}
AfterDraw(c, s, os) == LET L == Left(s, os) IN
  IF L = {{}} THEN [s EXCEPT !.cand = {}, !.pass = @ + 1, !.drawn = {}] ELSE [s EXCEPT !.cand = L, !.drawn = {}]
AnyEdge(c, s) == \E i \in 1..Len(s.buf) : Edge(c, s.th, s.v, s.buf[i])
Apply(c, s, e) ==
  CASE e.ev = "episode" -> [s EXCEPT !.buf = Append(@, e.tr)]
    [] e.ev = "opt" /\ e.own = "policy" ->
         LET os == IF AnyEdge(c, s) THEN Opts(c, s) ELSE Fits(c, s, e)
             n == [s EXCEPT !.th = e.th, !.drawn = os] IN
         IF c.base THEN n ELSE AfterDraw(c, n, os)
    [] e.ev = "opt" /\ e.own = "value" -> AfterDraw(c, [s EXCEPT !.v = e.v], VFits(c, s, e))
    [] e.ev = "trained" -> IF Len(s.buf) = c.freq THEN [s EXCEPT !.buf = <<>>, !.pass = 0, !.cand = {}] ELSE s
    [] OTHER -> s
Verdict(c, s, e) ==
  CASE e.ev = "episode" -> ""
    [] e.ev = "refused" -> IF e.exc = "RuntimeError" /\ c.base /\ c.norm THEN "" ELSE IF e.exc # "" THEN "training failed" ELSE "a baseline and normalisation were combined"
    [] e.ev = "opt" ->
         IF Len(s.buf) # c.freq THEN "an update before the configured number of episodes"
         ELSE IF s.pass >= Passes(c) THEN "more updates than configured"
         ELSE IF e.own = "policy" THEN
           (IF s.drawn # {} THEN "the baseline was not updated"
            ELSE IF ~SameV(s.v, e.v) THEN "the baseline changed in the policy's update"
            ELSE IF ~AnyEdge(c, s) /\ Fits(c, s, e) = {} THEN "the policy did not move by the credit of the episodes at hand" ELSE "")
         ELSE (IF ~c.base \/ s.drawn = {} THEN "an unexpected baseline update"
               ELSE IF ~Same(s.th, e.th) THEN "the policy changed in the baseline's update"
               ELSE IF VFits(c, s, e) = {} THEN "the baseline did not move toward the returns of the episodes at hand" ELSE "")
    [] e.ev = "trained" ->
         IF Len(s.buf) = c.freq /\ (s.pass # Passes(c) \/ s.cand # {} \/ s.drawn # {}) THEN "the configured number of episodes did not bring the update"
         ELSE IF ~Same(s.th, e.th) \/ ~SameV(s.v, e.v) THEN "parameters changed outside any update" ELSE ""
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
