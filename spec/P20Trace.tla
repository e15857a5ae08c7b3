---- MODULE P20Trace ----
EXTENDS Evolution, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [parent |-> <<>>, opt |-> Blank(c.n), noise |-> {}, blur |-> FALSE]
Parent(s) == s.parent
Noise(s, e) == {Diff(e.pops[1][i], s.parent) : i \in 1..Len(e.pops[1])}
R(e) == Shared(e.r)
(* rewards too close together to standardise in fixed point *)
Unclear(r) == ~Flat(r) /\ Std(r) < 400
Opt(c, s, e) == IF Flat(R(e)) \/ Unclear(R(e)) THEN s.opt ELSE Learn(s.opt, Grad(c, s.parent, e.pops[1], R(e)))
Apply(c, s, e) ==
  CASE e.ev = "start" -> [s EXCEPT !.parent = e.parents[1]]
    [] e.ev = "epoch" -> [parent |-> e.parents[1], opt |-> Opt(c, s, e), noise |-> s.noise \cup Noise(s, e), blur |-> s.blur \/ Unclear(R(e)) \/ (Flat(R(e)) /\ ~c.exact)]
    [] OTHER -> s
Agree(x) == \A i, j \in 1..Len(x) : x[i] = x[j]
Squares(s, e) == SumSeq([i \in 1..Len(e.pops[1]) |-> LET z == Diff(e.pops[1][i], s.parent) IN SumSeq([d \in 1..Len(z) |-> Mul(z[d], z[d])])])
Power2(c) == Frac(Unit, c.pn * c.pn, c.pd * c.pd)
Epoch(c, s, e) ==
  IF e.exc # "" THEN "an epoch failed"
  ELSE IF \E w \in 1..c.W : Len(e.pops[w]) # c.P THEN "a member was not tried exactly once"
  ELSE IF ~Agree(e.pops) THEN "workers tried different members"
  ELSE IF Cardinality(Noise(s, e)) # c.P \/ Noise(s, e) \cap s.noise # {} THEN "noise was used again"
  ELSE IF c.P * c.n >= 100 /\ LET m == Squares(s, e) \div (c.P * c.n) IN m * 5 < Power2(c) \/ m > 2 * Power2(c) THEN "mutations do not have the configured size"
  ELSE IF ~Agree(e.parents) \/ ~e.same THEN "workers hold different parents"
  ELSE IF Flat(R(e)) THEN (IF c.exact /\ e.parents[1] # s.parent THEN "the parent moved although all members did as well" ELSE "")
  ELSE LET o == TLCEval(Opt(c, s, e)) IN
       IF ~s.blur /\ ~Unclear(R(e)) /\ \E d \in 1..c.n : Rms(o, d) >= 100 /\ ~Near(e.parents[1][d] - s.parent[d], Moved(c, o, d), Slack(c, o, d)) THEN "the parent did not move along the reward-weighted noise"
       ELSE IF \E w \in 1..c.W : e.last[w] # e.parents[w] \/ ~Near(e.ret[w], e.own[w], 2) THEN "the reward reported is not that of the new parent"
       ELSE ""
Verdict(c, s, e) ==
  CASE e.ev = "start" -> IF Agree(e.parents) THEN "" ELSE "workers start from different parents"
    [] e.ev = "epoch" -> Epoch(c, s, e)
    [] e.ev = "again" -> IF e.parents[1] = s.parent THEN "" ELSE "the same seed and rewards led to another parent"
    [] e.ev = "other" -> IF e.parents[1] # e.first THEN "" ELSE "another seed led to the same parent"
    [] OTHER -> "unknown event"
INSTANCE TraceBase
====
