------------------------------ MODULE P05Trace ------------------------------
(* Exporting a buffer: a function from the offered transitions to rows, one row per transition. *)
EXTENDS ReplayContent, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Rng(s) == {s[i] : i \in 1..Len(s)}

Start(c) == [steps |-> <<>>, count |-> 0]
Apply(c, s, e) ==
  IF e.ev = "add"
  THEN [steps |-> Append(s.steps, [p |-> PosOfNext(c, s.steps, s.count), term |-> e.term, e |-> e]),
        count |-> CountAfter(c, s.steps, s.count)]
  ELSE s

Verdict(c, s, e) ==
  LET off == OfferedIdx(c, s.steps, s.count)
      keys == {<<s.steps[i].e.mdp, s.steps[i].e.seq>> : i \in off}
      rk(k) == <<e.rows[k].mdp, e.rows[k].seq>>
      stepOf(k) == s.steps[CHOOSE i \in off : <<s.steps[i].e.mdp, s.steps[i].e.seq>> = rk(k)].e
      acts == {s.steps[i].e.act[1] : i \in off}
      badrow(k) ==
        LET d == stepOf(k) IN
        CASE e.rows[k].state # d.obs -> "state"
          [] e.rows[k].reward # d.rew -> "reward"
          [] e.rows[k].metric # d.rew -> "metrics"
          [] e.rows[k].prob # d.prob -> "action probability"
          [] c.discrete /\ e.rows[k].act # <<d.act[1]>> -> "discrete action name"
          [] ~c.discrete /\ e.rows[k].act # d.act -> "action features"
          [] c.discrete /\ Rng(e.rows[k].possible) # (IF d.term THEN {} ELSE acts) -> "possible actions"
          [] c.discrete /\ Len(e.rows[k].possible) # Cardinality(Rng(e.rows[k].possible)) -> "possible actions repeated"
          [] c.discrete /\ e.rows[k].mask # [j \in 1..Len(e.rows[k].possible) |-> 1] -> "possible actions mask"
          [] OTHER -> ""
      bads == {k \in 1..Len(e.rows) : badrow(k) # ""}
  IN
  CASE e.ev = "add" -> IF e.exc # "" THEN "insertion failed" ELSE ""
    [] e.ev = "export" ->
         CASE e.exc # "" -> "export failed"
           [] {rk(k) : k \in 1..Len(e.rows)} \ keys # {} -> "exported a row that is no offered transition"
           [] keys \ {rk(k) : k \in 1..Len(e.rows)} # {} -> "a transition was lost"
           [] Len(e.rows) # Cardinality(keys) -> "a transition was exported twice"
           [] bads # {} -> badrow(CHOOSE k \in bads : \A j \in bads : k <= j)
           [] OTHER -> ""
    [] OTHER -> "unknown event"

INSTANCE TraceBase
=============================================================================
