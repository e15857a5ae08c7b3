------------------------------ MODULE P08Trace ------------------------------
EXTENDS Conversion, TLC, Json, IOUtils
VARIABLES t, l, st, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [x |-> 0]
Apply(c, s, e) == s

Diff(F, got, want) ==
  IF \E f \in F : got[f] # want[f] THEN CHOOSE f \in F : got[f] # want[f] ELSE ""
RECURSIVE FirstDiff(_, _, _, _)
FirstDiff(F, got, want, i) ==
  IF i > Len(want) THEN ""
  ELSE LET d == Diff(F, got[i], want[i]) IN IF d = "" THEN FirstDiff(F, got, want, i + 1) ELSE d
Rows(F, got, want, what) ==
  IF Len(got) # Len(want) THEN what \o ": number of rows"
  ELSE LET d == FirstDiff(F, got, want, 1) IN IF d = "" THEN "" ELSE what \o ": " \o d

DF == {"state", "next_state", "reward", "not_terminal", "action", "next_action", "mask", "next_mask", "prob"}
CF == DF \ {"mask", "next_mask"}
SF == {"state", "next_state", "docs", "next_docs", "value", "next_value", "action", "next_action", "reward", "reward_mask", "not_terminal"}
Verdict(c, s, e) ==
  CASE e.ev = "dqn" -> IF e.exc # "" THEN "discrete conversion failed"
                       ELSE Rows(DF, e.out, [i \in 1..Len(e.raw) |-> Discrete(c.nact, e.raw[i])], "discrete batch")
    [] e.ev = "pdqn" ->
         CASE e.exc # "" -> "parametric conversion failed"
           [] e.possible # [i \in 1..Len(e.raw) |-> [a \in 1..c.nact |-> OneHot(c.nact, a - 1)]] -> "parametric batch: possible actions"
           [] OTHER -> Rows(DF, e.out, [i \in 1..Len(e.raw) |-> Discrete(c.nact, [e.raw[i] EXCEPT !.mask = <<>>, !.next_mask = <<>>])], "parametric batch")
    [] e.ev = "cont" -> IF e.exc # "" THEN "continuous conversion failed"
                       ELSE Rows(CF, e.out, [i \in 1..Len(e.raw) |-> Continuous(c.unit, c.lo, c.hi, e.raw[i])], "continuous batch")
    [] e.ev = "extract" -> (* a model action is put back on the environment's scale *)
         CASE e.exc # "" -> "action extraction failed"
           [] c.kind = "discrete" -> IF e.out = <<e.model>> THEN "" ELSE "extracted discrete action"
           [] \E i \in 1..Len(c.lo) : e.out[i] # Rescale(e.model[i], -c.unit, c.unit, c.lo[i], c.hi[i]) -> "extracted action is not the model action rescaled to the environment"
           [] OTHER -> ""
    [] e.ev = "refuse" -> IF e.exc = "" THEN "an out of range action was accepted" ELSE ""
    [] e.ev = "mem" ->
         LET f == c.frames IN
         CASE e.exc # "" -> "sequence conversion failed"
           [] Len(e.state) # f \/ Len(e.action) # f \/ Len(e.next_state) # f \/ Len(e.reward) # f \/ Len(e.not_terminal) # f -> "sequence batch: number of frames"
           [] \E k \in 1..f : Len(e.state[k]) # Len(e.raw) -> "sequence batch: number of rows"
           [] \E k \in 1..f : \E b \in 1..Len(e.raw) : e.state[k][b] # e.raw[b].state[k] -> "sequence batch: state"
           [] \E k \in 1..f : \E b \in 1..Len(e.raw) : e.next_state[k][b] # e.raw[b].next_state[k] -> "sequence batch: next state"
           [] \E k \in 1..f : \E b \in 1..Len(e.raw) : e.action[k][b] # OneHot(c.nact, e.raw[b].action[k]) -> "sequence batch: action"
           [] \E k \in 1..f : \E b \in 1..Len(e.raw) : e.reward[k][b] # e.raw[b].reward[k] -> "sequence batch: reward"
           [] \E k \in 1..f : \E b \in 1..Len(e.raw) : e.not_terminal[k][b] # MemNotTerminal(f, k, e.raw[b]) -> "sequence batch: not terminal"
           [] OTHER -> ""
    [] e.ev = "slate" -> IF e.exc # "" THEN "slate conversion failed"
                       ELSE Rows(SF, e.out, [i \in 1..Len(e.raw) |-> Slate(e.raw[i])], "slate batch")
    [] e.ev = "stored" -> (* what the recommendation inserter put into the buffer for one step *)
         CASE e.exc # "" -> "recording a recommendation step failed"
           [] e.got.user # e.obs.user -> "stored user features"
           [] e.got.docs # e.obs.docs -> "stored item features"
           [] e.got.value # e.obs.value -> "stored item augmentation"
           [] e.obs.responses # <<>> /\ e.got.responses # e.obs.responses -> "stored responses"
           [] e.obs.responses = <<>> /\ e.got.responses # [i \in 1..c.slots |-> [click |-> 0, watch |-> 0]] -> "a step without responses must store zeros"
           [] OTHER -> ""
    [] e.ev = "traj" ->
         CASE e.exc # "" -> "episode conversion failed"
           [] e.state # [i \in 1..Len(e.raw) |-> e.raw[i].state] -> "episode batch: state"
           [] e.action # [i \in 1..Len(e.raw) |-> IF c.kind = "discrete" THEN OneHot(c.nact, e.raw[i].action[1]) ELSE e.raw[i].action] -> "episode batch: action"
           [] e.reward # [i \in 1..Len(e.raw) |-> e.raw[i].reward] -> "episode batch: reward"
           [] e.logp # [i \in 1..Len(e.raw) |-> e.raw[i].logp] -> "episode batch: log probability"
           [] OTHER -> ""
    [] OTHER -> "unknown event"
INSTANCE TraceBase
=============================================================================
