------------------------------ MODULE P09Trace ------------------------------
EXTENDS ActionSelection, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
P == 100000                       \* fixed point of probabilities
Abs(x) == IF x < 0 THEN -x ELSE x
(* |p/P - num/den| small, without overflowing *)
Close(p, num, den) == Abs(p - ((num * (P \div 10)) \div den) * 10) <= 50

Start(c) == [e |-> IF c.kind = "eps" THEN c.e ELSE 0]
Apply(c, s, ev) == IF ev.ev = "update" THEN [s EXCEPT !.e = EpsNext(s.e, c.dn, c.dd, c.min)] ELSE s

Probs(c, s, k, mask, g) ==
  CASE c.kind = "soft" -> [num |-> SoftNum(k, mask), den |-> SoftDen(k, mask)]
    [] c.kind = "eps" -> [num |-> EpsNum(k, mask, g, s.e, c.den), den |-> EpsDen(k, mask, c.den)]
    [] c.kind = "random" -> [num |-> [i \in 1..Len(k) |-> IF i \in Allowed(k, mask) THEN 1 ELSE 0], den |-> Cardinality(Allowed(k, mask))]
    [] c.kind = "greedy" -> [num |-> [i \in 1..Len(k) |-> IF i = g THEN 1 ELSE 0], den |-> 1]

Verdict(c, s, ev) ==
  CASE ev.ev = "update" -> IF ev.exc # "" THEN "updating the exploration rate failed" ELSE ""
    (* counts[i] of n draws, and the log-probabilities reported with them (as probabilities) *)
    [] ev.ev = "draw" ->
         LET ok == Allowed(ev.k, ev.mask)
             bst == Best(ev.k, ev.mask)
             Fits(g) == LET p == Probs(c, s, ev.k, ev.mask, g) IN \A i \in 1..Len(ev.k) : Abs((ev.counts[i] * 1000) \div ev.n - (p.num[i] * 1000) \div p.den) <= c.tol
         IN CASE ev.exc # "" -> "selecting an action failed"
              [] SumSeq(ev.counts) # ev.n -> "number of selected actions"
              [] \E i \in 1..Len(ev.k) : ev.counts[i] > 0 /\ i \notin ok -> "an impossible action was selected"
              [] c.kind = "greedy" /\ \E i \in 1..Len(ev.k) : ev.counts[i] > 0 /\ i \notin bst -> "greedy selection of an action that is not best"
              [] \A g \in bst : ~Fits(g) -> "actions are not drawn with the prescribed probabilities"
              [] \A g \in bst : ~(Fits(g) /\ \A j \in 1..Len(ev.lps) :
                    LET p == Probs(c, s, ev.k, ev.mask, g) IN Close(ev.lps[j][2], p.num[ev.lps[j][1]], p.den)) ->
                   "reported log-probability is not that of the drawn action"
              [] OTHER -> ""
    (* the log-probability of every action, asked for separately *)
    [] ev.ev = "logp" ->
         CASE ev.exc # "" -> "log-probability of an action failed"
           [] \A g \in Best(ev.k, ev.mask) : \E i \in 1..Len(ev.k) :
                LET p == Probs(c, s, ev.k, ev.mask, g) IN ~Close(ev.p[i], p.num[i], p.den) -> "log-probability of an action"
           [] OTHER -> ""
    (* entropy in units of ln 2 * 1000, rows whose probabilities are powers of two *)
    [] ev.ev = "entropy" ->
         LET RowH(k) == LET num == SoftNum(k, <<>>) den == SoftDen(k, <<>>)
                            lg(x) == CHOOSE y \in 0..20 : Pow2(y) = x
                        IN SumSeq([i \in 1..Len(k) |-> (num[i] * 1000 * lg(den \div num[i])) \div den])
         IN IF ev.exc # "" THEN "entropy failed"
            ELSE IF Abs(ev.h * Len(ev.rows) - SumSeq([i \in 1..Len(ev.rows) |-> RowH(ev.rows[i])])) > 4 * Len(ev.rows) THEN "entropy of the policy" ELSE ""
    [] ev.ev = "topk" ->
         CASE ev.exc # "" -> "top-k selection failed"
           [] Cardinality({ev.idx[i] : i \in 1..Len(ev.idx)}) # c.k -> "top-k selection repeats an item"
           [] [i \in 1..Len(ev.idx) |-> ev.scores[ev.idx[i]]] # TopScores(ev.scores, 1..Len(ev.scores), c.k) -> "top-k selection is not the k highest in order"
           [] OTHER -> ""
    (* one random composite action and its log-probability *)
    [] ev.ev = "multi" ->
         LET RECURSIVE Prod(_)
             Prod(i) == IF i = 0 THEN 1 ELSE ev.n[i] * Prod(i - 1)
         IN CASE ev.exc # "" -> "random selection failed"
              [] \E i \in 1..Len(ev.n) : ev.act[i] < 0 \/ ev.act[i] >= ev.n[i] -> "random action out of range"
              [] ~Close(ev.p, 1, Prod(Len(ev.n))) -> "reported log-probability of a random action"
              [] OTHER -> ""
    [] ev.ev = "box" ->
         CASE ev.exc # "" -> "random selection failed"
           [] \E i \in 1..Len(ev.act) : ev.act[i] < -1000 \/ ev.act[i] > 1000 -> "random action out of range"
           [] ~Close(ev.p, 1, Pow2(Len(ev.act))) -> "reported log-density of a random action"
           [] OTHER -> ""
    (* squashed Gaussian: z standardised pre-squash value, ls = log scale, j = log(1 - a^2); thousandths *)
    [] ev.ev = "gauss" ->
         LET want == SumSeq([i \in 1..Len(ev.z) |-> -((ev.z[i] * ev.z[i]) \div 2000) - ev.ls[i] - 919 - ev.j[i]])
         IN CASE ev.exc # "" -> "Gaussian action failed"
              [] \E i \in 1..Len(ev.act) : Abs(ev.act[i]) > 1000 -> "Gaussian action out of range"
              [] Abs(ev.lp - want) > 15 * Len(ev.z) -> "log-density reported with the Gaussian action"
              [] Abs(ev.lp2 - want) > 15 * Len(ev.z) -> "log-density of a given Gaussian action"
              [] OTHER -> ""
    [] OTHER -> "unknown event"
INSTANCE TraceBase
=============================================================================
