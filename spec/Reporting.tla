----------------------------- MODULE Reporting -----------------------------
(* Metrics reporting: values are reported under a key, every observer of the key receives each of
   them once; windowed observers collect the values and hand each window to an aggregate every k
   values and at the end of an epoch.  A reporter is a table of observers. *)
EXTENDS FixMath, FiniteSets
(* ---- windows: n values since the last epoch end, open window, closed windows ---- *)
Fresh == [n |-> 0, buf |-> <<>>, win |-> <<>>]
Feed(o, k, v) ==
  LET full == k > 0 /\ (o.n + 1) % k = 0
      buf == Append(o.buf, v)
  IN [n |-> o.n + 1, buf |-> IF full THEN <<>> ELSE buf, win |-> IF full THEN Append(o.win, buf) ELSE o.win]
Close(o) == [n |-> 0, buf |-> <<>>, win |-> IF Len(o.buf) = 0 THEN o.win ELSE Append(o.win, o.buf)]
RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
(* ---- aggregates of a window (a sequence of batches, each a sequence of rows) ---- *)
Flat(w) == Cat(Cat(w))                                   \* every number of every row
MeanOf(xs) == SumSeq(xs) \div Len(xs)
Column(w, i) == LET rows == Cat(w) IN [r \in 1..Len(rows) |-> rows[r][i]]
VarOf(xs) == LET m == MeanOf(xs) IN SumSeq([i \in 1..Len(xs) |-> Mul(xs[i] - m, xs[i] - m)]) \div (Len(xs) - 1)
CountOf(w, i) == LET xs == Flat(w) IN Cardinality({j \in 1..Len(xs) : xs[j] = i * Unit})
Recent(ws, size) == LET xs == Cat([i \in 1..Len(ws) |-> Flat(ws[i])]) IN IF Len(xs) <= size THEN xs ELSE SubSeq(xs, Len(xs) - size + 1, Len(xs))
(* ---- reporters ---- *)
Row(nm, key, kind, k, tag) == [nm |-> nm, key |-> key, kind |-> kind, k |-> k, tag |-> tag]
Hist(ks, k) == [i \in 1..Len(ks) |-> Row(ks[i][1] \o "_tb", ks[i][1], "hist", k, ks[i][2])]
Listed == <<Row("cpe_results", "cpe_details", "list", 0, "")>>
Basic(k) == <<Row("td_loss", "td_loss", "mean", k, ""), Row("recent_rewards", "logged_rewards", "recent", k, "")>>
QHist == <<<<"q1_loss", "loss/q1_loss">>, <<"actor_loss", "loss/actor_loss">>, <<"q1_value", "q_value/q1_value">>, <<"next_q_value", "q_value/next_q_value">>,
           <<"target_q_value", "q_value/target_q_value">>, <<"actor_q1_value", "q_value/actor_q1_value">>, <<"q2_loss", "loss/q2_loss">>, <<"q2_value", "q_value/q2_value">>>>
BasicHist(k) == Hist(<<<<"td_loss", "td_loss">>, <<"reward_loss", "reward_loss">>, <<"logged_propensities", "propensities/logged">>, <<"logged_rewards", "reward/logged">>>>, k)
Discrete(k) == Listed \o Basic(k) \o BasicHist(k)
  \o <<Row("reward_loss", "reward_loss", "mean", k, ""), Row("model_values", "model_values", "fns", k, ""), Row("logged_action", "logged_actions", "count", k, ""),
       Row("model_action", "model_action_idxs", "count", k, ""), Row("logged_actions_tb", "logged_actions", "counts", k, "actions/logged"),
       Row("model_action_idxs_tb", "model_action_idxs", "counts", k, "actions/model"), Row("model_propensities_tb", "model_propensities", "acts", k, "propensities/model"),
       Row("model_rewards_tb", "model_rewards", "acts", k, "reward/model"), Row("model_values_tb", "model_values", "acts", k, "value/model")>>
Critic(k) == Listed \o Basic(k) \o <<Row("logged_action_q_value", "model_values_on_logged_actions", "mean", k, "")>>
LossHist == <<<<"td_loss", "td_loss">>, <<"imitator_loss", "imitator_loss">>, <<"reward_loss", "reward_loss">>, <<"logged_propensities", "propensities/logged">>, <<"logged_rewards", "reward/logged">>,
              <<"logged_values", "value/logged">>, <<"model_values_on_logged_actions", "value/model_logged_action">>>>
(* the older reporter: all values of a window of k reports together *)
Losses(k) ==
  <<Row("td_loss", "td_loss", "mean", k, ""), Row("reward_loss", "reward_loss", "mean", k, ""), Row("imitator_loss", "imitator_loss", "mean", k, ""),
    Row("logged_action_q_value", "model_values_on_logged_actions", "mean", k, ""), Row("running_reward", "logged_rewards", "recent", k, "")>> \o Hist(LossHist, k)
Table(kind, k) ==
  CASE kind = "loss" -> Losses(k) \o <<Row("model_values", "model_values", "fns", k, ""), Row("logged_action", "logged_actions", "total", k, ""), Row("model_action", "model_action_idxs", "count", k, ""),
         Row("logged_actions_tb", "logged_actions", "counts", k, "actions/logged"), Row("model_action_idxs_tb", "model_action_idxs", "counts", k, "actions/model"),
         Row("model_propensities_tb", "model_propensities", "acts", k, "propensities/model"), Row("model_rewards_tb", "model_rewards", "acts", k, "reward/model"), Row("model_values_tb", "model_values", "acts", k, "value/model")>>
    [] kind = "loss0" -> Losses(k) \o Hist(<<<<"model_propensities", "propensities/model">>, <<"model_rewards", "reward/model">>, <<"model_values", "value/model">>>>, k)
    [] kind = "dqn" -> Discrete(k)
    [] kind = "crr" -> Discrete(k) \o Hist(QHist, k)
    [] kind = "pdqn" -> Listed \o Basic(k) \o BasicHist(k) \o <<Row("reward_loss", "reward_loss", "mean", k, ""), Row("model_values_on_logged_actions", "model_values_on_logged_actions", "mean", k, "")>>
    [] kind = "slateq" -> Critic(k) \o Hist(<<<<"td_loss", "td_loss">>, <<"reward_loss", "reward_loss">>, <<"logged_rewards", "reward/logged">>>>, k)
    [] kind = "ac" -> Critic(k) \o BasicHist(k)
    [] kind = "td3" -> Critic(k) \o BasicHist(k) \o Hist(QHist, 1)
    [] kind = "sac" -> Critic(k) \o BasicHist(k)
         \o Hist(<<<<"q1_value", "q1/logged_state_value">>, <<"q2_value", "q2/logged_state_value">>, <<"log_prob_a", "log_prob_a">>, <<"target_state_value", "value_network/target">>,
                   <<"next_state_value", "q_network/next_state_value">>, <<"target_q_value", "q_network/target_q_value">>, <<"actor_output_log_prob", "actor/log_prob">>,
                   <<"min_q_actor_value", "actor/min_q_actor_value">>, <<"actor_loss", "actor/loss">>, <<"action_batch_mean", "kld/mean">>, <<"action_batch_var", "kld/var">>>>, 1)
         \o <<Row("entropy_temperature_tb", "entropy_temperature", "scalar", 0, "entropy_temperature"), Row("kld_tb", "kld", "scalar", 0, "kld/kld")>>
Windowed(r) == r.kind \notin {"list", "scalar"}
Keys(T) == {T[i].key : i \in 1..Len(T)}
Blank(T) == [i \in 1..Len(T) |-> Fresh]
(* one value reported under a key reaches every observer of the key *)
Report(T, s, key, v) == [i \in 1..Len(T) |-> IF T[i].key # key THEN s[i]
                          ELSE IF Windowed(T[i]) THEN Feed(s[i], T[i].k, v) ELSE Feed(s[i], 1, v)]
Ends(T, s) == [i \in 1..Len(T) |-> IF Windowed(T[i]) THEN Close(s[i]) ELSE s[i]]
(* ---- what a closed window writes to the summary: <<function, tag, values>> ---- *)
Writes(r, w, acts) ==
  CASE r.kind = "hist" -> <<<<"add_histogram", r.tag, Flat(w)>>, <<"add_scalar", r.tag \o "/mean", <<MeanOf(Flat(w))>>>>>>
    [] r.kind = "acts" -> [j \in 1..(2 * Len(acts)) |-> LET a == (j + 1) \div 2  xs == Column(w, a)  tag == r.tag \o "/" \o acts[a]
                            IN IF j % 2 = 1 THEN <<"add_histogram", tag, xs>> ELSE <<"add_scalar", tag \o "/mean", <<MeanOf(xs)>>>>]
    [] r.kind = "counts" -> [a \in 1..Len(acts) |-> <<"add_scalar", r.tag \o "/" \o acts[a], <<CountOf(w, a - 1) * Unit>>>>]
    [] r.kind = "scalar" -> <<<<"add_scalar", r.tag, Flat(w)>>>>
    [] OTHER -> <<>>
NewWindows(s0, s1, i) == SubSeq(s1[i].win, Len(s0[i].win) + 1, Len(s1[i].win))
NewWrites(T, s0, s1, acts) == Cat([i \in 1..Len(T) |-> LET ws == NewWindows(s0, s1, i) IN Cat([j \in 1..Len(ws) |-> Writes(T[i], ws[j], acts)])])
=============================================================================
