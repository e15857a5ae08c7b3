import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
RB="reagent/replay_memory/circular_replay_buffer.py"
p("P01","Replay buffer offers exactly the transitions that are safe to sample",
"After any sequence of inserted steps, the transitions a replay buffer counts and offers for sampling are exactly those of the retained steps whose whole look-ahead window (n steps, or fewer when the episode ends first) has been inserted and whose own data and history window have not been overwritten or reserved for overwriting. Padding steps and steps still waiting for their look-ahead are never offered, and sampling from a buffer that offers none is refused.",
["histories","configurations"],"every sequence of steps and episode ends, for every capacity, stack size and look-ahead",
"The unit tests insert one or two short fixed sequences; wrap-around combined with short episodes, stacking and n-step look-ahead is a history quantifier.",
[RB],[("validity bookkeeping on add",RB),("uniform index sampling over valid cells",RB)],
[("valid map","which cells may be sampled",RB),("add counter","total cells written",RB)],["size","sample_transition_batch","sample_all_valid_transitions","sample_index_batch"])
p("P02","A sampled transition is the n-step summary of what really happened",
"Every transition a replay buffer returns, sampled by index or at random, carries exactly what was inserted: the stacked observations of the same episode (zero-padded before its start), its action and extra fields, the discounted sum of the rewards from that step up to the look-ahead or the episode's end, the number of steps summed, the step that follows them as next state, action and reward, and a terminal flag set if and only if the episode ended within the window. In timeline format the lists hold the individual steps of that same window, and nothing from another episode or from overwritten steps ever leaks into a returned value.",
["histories","configurations","inputs"],"every insertion history, every sampleable index and every stack size, look-ahead and discount",
"Tests compare a handful of hand-computed batches; overwriting, episode boundaries and stacking interact over histories.",
[RB],[("n-step reward and next index computation",RB),("stack gathering with zero masking at episode boundary",RB)],
[("store","per-field ring of tensors",RB)],["sample_transition_batch","sample_all_valid_transitions"])
p("P03","Replay checkpoints restore the buffer, or change nothing",
"A replay buffer restored from a complete checkpoint offers the same transitions with the same contents, and evolves in the same way under further inserted steps, as the buffer that was saved. Restoring from a checkpoint with any missing part fails and leaves the buffer untouched, and saving repeatedly keeps the most recent checkpoints while deleting only the ones that have fallen out of the retention window.",
["histories","crash_points"],"every insertion history at the time of saving, every subset of checkpoint files lost, every sequence of checkpoint numbers",
"The tests save hand-assigned internal attributes once and never sample from or add to a restored buffer.",
[RB],[("save/load of checkpointable elements and stale file removal",RB)],[("checkpoint files","one gzip per element and iteration",RB)],["save","load","directory listing"])
p("P04","Prioritized sampling only returns live transitions, by current priority",
"A prioritized buffer returns only transitions it currently offers, each with the priority most recently given to it by insertion or update, and the underlying sum structure always stores for each cell the last value set, with every draw mapped to the cell whose cumulative-priority interval contains it and stratified draws one per equal slice. A zero total or an invalid priority or request is refused instead of returning an arbitrary transition.",
["histories","inputs"],"every sequence of insertions, priority updates and draws, and every outcome of the random draws",
"Tests check a few fixed priorities; correctness must hold for every update history and every draw position.",
["reagent/replay_memory/prioritized_replay_buffer.py","reagent/replay_memory/sum_tree.py"],[("sum tree descent","reagent/replay_memory/sum_tree.py"),("retry until valid","reagent/replay_memory/prioritized_replay_buffer.py")],
[("tree","sums of priorities","reagent/replay_memory/sum_tree.py")],["sample_transition_batch","sample_index_batch","set_priority","get_priority"])
p("P05","Exporting experience to offline data loses and duplicates nothing",
"Exporting a replay buffer to the offline log format yields every sampleable transition exactly once, with its episode and sequence identifiers, state, action, reward, action probability and possible actions intact. Actions are exported under the action name or feature layout that encodes them.",
["histories","configurations"],"every history of episodes recorded into the buffer, discrete and continuous actions",
"The tests only look at the number of exported rows of one random run, and export itself samples at random.",
["reagent/replay_memory/utils.py","reagent/gym/utils.py"],[("conversion of sampled transitions to rows","reagent/replay_memory/utils.py")],[],["replay_buffer_to_pre_timeline_df"])
p("P06","An episode run records every environment step once, in order, and stops",
"Running an episode presents each observation and the then-available actions to the policy, sends exactly the chosen action to the environment, and records one entry per environment step with consecutive sequence numbers and the reward, terminal flag, log-probability and action mask of that very step. The episode ends exactly when the environment says so or the step limit is reached, every per-step and per-episode callback fires once in that order, and evaluating several episodes reports for each discount the discounted sum of each episode's own rewards.",
["histories","configurations"],"every environment behaviour (rewards, termination, masks), step limit and discount",
"The gym tests need long training runs and assert only a reward threshold; they cannot run here and would not see a mis-recorded step.",
["reagent/gym/runners/gymrunner.py","reagent/gym/agents/agent.py","reagent/gym/types.py"],[("episode loop","reagent/gym/runners/gymrunner.py"),("trajectory container","reagent/gym/types.py")],[],["run_episode","evaluate_for_n_episodes","Trajectory"])
p("P07","Online training consumes experience at the promised cadence",
"During online training each environment step is inserted into the replay buffer exactly once and before any training on it; a training batch of the requested size is produced after precisely those steps the training frequency selects and only when the buffer offers enough transitions; filling a buffer stops once it holds the requested amount. Training stops after the requested number of episodes, and the step limit bounds every episode.",
["histories","configurations"],"every environment behaviour, training frequency, batch size, episode count and step limit",
"No passing test runs the online dataset or the training callback; cadence depends on the whole history of steps.",
["reagent/gym/datasets/replay_buffer_dataset.py","reagent/gym/agents/post_step.py","reagent/gym/utils.py"],[("dataset iterator","reagent/gym/datasets/replay_buffer_dataset.py"),("post step callback","reagent/gym/agents/post_step.py"),("fill_replay_buffer","reagent/gym/utils.py")],[],["batches yielded","trainer.train calls","replay buffer contents"])
p("P08","Recorded experience reaches the trainers unaltered",
"Converting sampled experience into a training batch keeps every row's state, action, reward and next state together: discrete actions become one-hot rows with no next action on terminal rows, continuous actions are rescaled between the environment's and the model's ranges and back without loss, rows are marked non-terminal exactly when their episode continued, and recorded action masks and probabilities are passed through. Recommendation observations, responses and clicked items are stored and batched item by item, a step without responses becoming zeros.",
["inputs","configurations"],"every batch content, terminal pattern, action space and mask",
"Tests convert a few random batches and mostly check shapes.",
["reagent/gym/preprocessors/trainer_preprocessor.py","reagent/gym/preprocessors/replay_buffer_inserters.py","reagent/gym/envs/env_wrapper.py","reagent/training/utils.py"],[("input makers","reagent/gym/preprocessors/trainer_preprocessor.py"),("inserters","reagent/gym/preprocessors/replay_buffer_inserters.py"),("rescale","reagent/training/utils.py")],[],["make_replay_buffer_trainer_preprocessor","make_trainer_preprocessor_online","action extractors"])
p("P09","Action selection respects masks, exploration and reported probabilities",
"An action that is currently impossible is never selected by a policy given its mask; greedy selection returns a highest-scoring action, top-k selection the k highest in order, and random selection only in-range actions. Stochastic selection draws each action with the probability its temperature or exploration rate prescribes, the log-probability reported with an action is the logarithm of that probability, and exploration decays by its factor down to, and never below, its minimum.",
["inputs","histories","configurations"],"every score vector, mask, temperature, exploration schedule and random draw",
"Tests cover shapes or a single draw; the distribution and mask claims quantify over all scores and draws.",
["reagent/gym/policies/samplers/discrete_sampler.py","reagent/gym/policies/samplers/continuous_sampler.py","reagent/gym/policies/samplers/top_k_sampler.py","reagent/gym/policies/scorers/discrete_scorer.py","reagent/gym/policies/random_policies.py","reagent/gym/policies/policy.py"],[("samplers","reagent/gym/policies/samplers/discrete_sampler.py"),("mask application","reagent/gym/policies/scorers/discrete_scorer.py")],[("epsilon","current exploration rate","reagent/gym/policies/samplers/discrete_sampler.py")],["sample_action","log_prob","Policy.act"])
p("P10","Q-learning moves each value toward its Bellman target and nothing else",
"One training step of the value-based learners moves the predicted value of each logged state-action toward its reward plus the discounted value of the next state, where the discount is raised to the logged time difference or step count when so configured, the next value is that of the best possible next action (or of the logged next action for on-policy learning) and is zero after a terminal step. The next value comes from the target network, with the online network choosing the action under double learning; impossible actions are never chosen, values of actions and states not in the batch do not enter, and configured reward adjustments are added per action taken.",
["inputs","configurations","histories"],"every batch, mask, terminal pattern, discount mode and option combination, over several training steps",
"The Q-learning train steps are only exercised by gym tests that cannot run here; the passing tests do not check the target for any option combination.",
["reagent/training/dqn_trainer.py","reagent/training/dqn_trainer_base.py","reagent/training/parametric_dqn_trainer.py","reagent/training/rl_trainer_pytorch.py"],[("target computation","reagent/training/dqn_trainer.py"),("masked max with target","reagent/training/dqn_trainer_base.py")],[("q network","online values",""),("target network","frozen copy","")],["parameters after a train step"])
p("P11","Distributional learners target the Bellman-shifted return distribution",
"One training step of the distributional value learners trains the return distribution of the logged action against the distribution of reward plus discounted next return, where the next return is that of the possible next action with the highest expected value (or the logged next action) under the target network, reduced to the reward alone after a terminal step. When the distribution has fixed support its projection conserves probability mass, clamps to the support and splits mass between neighbouring atoms in proportion to proximity.",
["inputs","configurations"],"every batch, mask, terminal pattern and support",
"No passing test executes a distributional train step.",
["reagent/training/c51_trainer.py","reagent/training/qrdqn_trainer.py","reagent/models/categorical_dqn.py"],[("projection","reagent/training/c51_trainer.py"),("quantile huber loss","reagent/training/qrdqn_trainer.py")],[],["loss of a train step","parameters after a train step"])
p("P12","Actor-critic learners use clipped targets and delayed policy updates",
"One training step of the actor-critic learners trains every critic against the reward plus discounted minimum of the target critics at the next state's target-policy action (with the entropy or smoothing terms configured), and the reward alone after a terminal step. The policy, its temperature and the target networks are updated toward higher critic value, exactly on the steps the configured delay selects, and offline variants weight the logged actions by their estimated advantage as configured.",
["inputs","configurations","histories"],"every batch, terminal pattern and option combination, over a sequence of training steps",
"No passing test executes these train steps; the delay makes the behaviour depend on the step history.",
["reagent/training/sac_trainer.py","reagent/training/td3_trainer.py","reagent/training/discrete_crr_trainer.py"],[("train step generators","reagent/training/sac_trainer.py"),("delayed update","reagent/training/td3_trainer.py")],[],["losses per optimizer","parameters after a train step"])
p("P13","Target networks track their sources by exactly the configured rate",
"After each update, every target parameter equals the old target moved toward the source by the configured rate, the source is unchanged, and a parameter shared by both is left alone; a rate outside the unit interval or mismatched networks are refused. Trainers start with targets equal to their sources and move them once per training step (or once per delayed update), after the learning updates of that step.",
["histories","configurations","inputs"],"every rate, sequence of updates and network pair",
"One test checks one rate once; trainers' update order is never observed.",
["reagent/optimizer/soft_update.py","reagent/training/rl_trainer_pytorch.py"],[("soft update optimizer","reagent/optimizer/soft_update.py")],[("target parameters","exponentially averaged copy","")],["target parameters after each train step"])
p("P14","Each optimizer updates only its own network, from its own loss, in order",
"In a training step of any learner, each configured optimizer is stepped with the loss meant for it: the parameters it owns change only by that loss's gradient, parameters of other networks (frozen targets in particular) do not change at that point, and gradients do not leak from one loss into the next optimizer's update. This holds for every combination of optional components such as counterfactual evaluation heads, second critics, value networks and learned temperatures, and a learner whose losses and optimizers do not match is refused.",
["configurations","histories"],"every option combination of every learner and every step count",
"Matching is positional and checked only for the count on the first batch; tests with option combinations do not look at which network moved.",
["reagent/training/reagent_lightning_module.py","reagent/training/dqn_trainer.py","reagent/training/qrdqn_trainer.py","reagent/training/c51_trainer.py","reagent/training/parametric_dqn_trainer.py","reagent/training/sac_trainer.py","reagent/training/td3_trainer.py","reagent/training/discrete_crr_trainer.py","reagent/training/dqn_trainer_base.py"],[("generator to optimizer_idx protocol","reagent/training/reagent_lightning_module.py"),("configure_optimizers order","reagent/training/qrdqn_trainer.py")],[],["parameter deltas per optimizer index"])
p("P15","A training run counts, stops and resumes exactly as asked",
"A training run visits every batch of every epoch exactly once and increments the global step once per batch; when asked to stop at an epoch it finishes that epoch and stops before the next, records whether it stopped cleanly, and a later run resumes from the epoch reached. State saved from a trainer restores the same parameters and counters, and warm-startable components are those the trainer declares.",
["histories","configurations"],"every number of batches, epochs, stop request and resume sequence, and every trainer",
"Stopping and resuming is one smoke test; each trainer's restore path is untested.",
["reagent/training/reagent_lightning_module.py","reagent/training/trainer.py","reagent/training/rl_trainer_pytorch.py"],[("stopping epoch callback","reagent/training/reagent_lightning_module.py"),("warm start components","reagent/training/trainer.py")],[("stopping epoch","epoch to stop before","reagent/training/reagent_lightning_module.py")],["epochs run","global step","state dict"])
p("P16","Policy-gradient learners credit each action with its own return",
"Policy-gradient learners weight the log-probability of each taken action by the discounted sum of rewards from that step to the end of its own episode, after the configured clipping, normalisation, baseline subtraction and off-policy correction, and never by rewards of another episode. Updates happen after exactly the configured number of trajectories, use every buffered trajectory, and leave the buffer empty; the ratio-clipped variant never rewards moving the ratio outside its clip range.",
["inputs","histories","configurations"],"every reward sequence, option combination and sequence of trajectories",
"Tests exercise the value of one loss; buffering and return computation over trajectory histories is not.",
["reagent/training/reinforce.py","reagent/training/ppo_trainer.py","reagent/training/utils.py"],[("discounted returns","reagent/training/utils.py"),("trajectory buffer","reagent/training/ppo_trainer.py")],[("trajectory buffer","trajectories since last update","reagent/training/ppo_trainer.py")],["parameters after train","losses"])
p("P17","Slate learning values each shown item by its own outcome",
"The slate learner trains the value of a shown item only where its reward was observed (at every position when the user may pick several), toward that item's reward plus the discounted value of the logged next slate - its items' target values weighted by their normalised chance to be picked, or averaged with the given weights when several may be picked - and toward the reward alone after a terminal step; values of other items do not move. Acting shows the distinct candidates with the largest chance to be picked times value, best first, and a slate with an absent candidate is refused.",
["inputs","configurations"],"every slate, observation pattern, candidate scores and option combination",
"No passing test executes a slate train step.",
["reagent/training/slate_q_trainer.py","reagent/gym/policies/scorers/slate_q_scorer.py","reagent/types.py"],[("next slate value","reagent/training/slate_q_trainer.py")],[],["loss of a train step"])
p("P18","Rankings are permutations and their probabilities are consistent",
"Every ranking produced, greedy or sampled, lists distinct valid candidates, at most as many as asked; greedy rankings pick the best-scoring remaining item at each rank. The log-probability reported for a ranking is the sum over ranks of the log of the chosen item's share among the items remaining, so that over all rankings of a given length probabilities sum to one, and ranking learners weight these by the reward, baseline and importance ratio configured.",
["inputs","configurations"],"every score vector, slate length and candidate count",
"Tests spot check a few slates; normalisation over all permutations quantifies over inputs.",
["reagent/samplers/frechet.py","reagent/models/seq2slate.py","reagent/model_utils/seq2slate_utils.py","reagent/training/ranking/seq2slate_trainer.py","reagent/training/ranking/helper.py","reagent/training/ranking/seq2slate_sim_trainer.py","reagent/training/utils.py"],[("Plackett-Luce log probability","reagent/samplers/frechet.py"),("decoder masking","reagent/models/seq2slate.py"),("permutation generation","reagent/training/utils.py")],[],["sample_action","log_prob","rank mode output"])
p("P19","Model-based planning picks the plan its world models predict to be best",
"Planning scores every candidate plan by the discounted rewards the world models predict along it, stopping at a predicted terminal state when terminals are in effect, and returns the first action of the best first choice (discrete) or an action within its bounds refined from the elite plans (continuous). Sequence reward models evaluate every action sequence of the planning length exactly once and recommend the first action of the best one.",
["inputs","configurations"],"every world-model prediction table, horizon, population and action count",
"Tests train noisy networks and assert thresholds.",
["reagent/models/cem_planner.py","reagent/training/world_model/seq2reward_trainer.py","reagent/training/utils.py"],[("rollout scoring","reagent/models/cem_planner.py"),("sequence enumeration","reagent/training/utils.py")],[],["planner output","get_Q"])
p("P20","Evolution-strategy workers stay in lock-step on one shared parent",
"Every worker derives the same candidate population from the shared seed and generation, tries every one of them, and after averaging rewards over the workers every worker holds the same parent, moved by the reward-weighted noise of that generation. Repeating a run with the same seed and rewards reproduces the same parents.",
["histories","schedules","configurations"],"every population, worker count, seed and sequence of reward vectors",
"Tests check one population's shape and a toy optimisation.",
["reagent/training/gradient_free/evolution_pool.py","reagent/training/gradient_free/es_worker.py"],[("seeded population","reagent/training/gradient_free/evolution_pool.py"),("all-reduce of rewards","reagent/training/gradient_free/es_worker.py")],[("parent","shared parameters","reagent/training/gradient_free/evolution_pool.py")],["parent tensors per worker"])
p("P21","Evaluation data keeps rows together and values episodes correctly",
"Building, appending and sorting evaluation data keeps every row's fields together and orders rows by episode and step; the value of a logged step, for the reward and for each metric, is its reward plus the later ones of the same episode discounted by their distance in steps. Data with broken-up episodes, out-of-order steps or mismatching fields is refused, evaluating does not change any network or its training mode, and each metric is evaluated with its own logged values and its own model predictions.",
["inputs","histories"],"every batch split, row order, episode layout and number of metrics",
"Tests build one page with a single metric.",
["reagent/evaluation/evaluation_data_page.py"],[("append/sort/compute_values/validate","reagent/evaluation/evaluation_data_page.py")],[],["EvaluationDataPage fields"])
p("P22","Counterfactual policy estimates equal their defining estimators",
"For any logged data the direct-method, inverse-propensity and doubly-robust estimates equal their defining averages, the sequential doubly-robust estimate is the average over episodes of its backward recursion within the episode, and the weighted sequential estimate is the step-wise importance-weighted sum with its control variate, of which MAGIC is a mixture. Every metric is scored with its own data, a learner's evaluation reports the estimates of its own pages, a target policy equal to the logging policy with exact models reproduces the logged return, and normalised estimates are relative to the logged policy's score, or zero when that score is not positive.",
["inputs","configurations"],"every logged data set, propensities, rewards, models and episode layout",
"Tests check gridworld values within loose tolerances.",
["reagent/evaluation/doubly_robust_estimator.py","reagent/evaluation/sequential_doubly_robust_estimator.py","reagent/evaluation/weighted_sequential_doubly_robust_estimator.py","reagent/evaluation/evaluator.py","reagent/evaluation/ope_adapter.py"],[("estimators","reagent/evaluation/doubly_robust_estimator.py")],[],["CpeEstimate values"])
p("P23","The offline policy evaluation library computes its textbook estimators",
"For any log, the library's bandit estimators (direct, inverse propensity plain and self-normalised, doubly robust, switch) and its sequential estimators (importance sampling plain and weighted, doubly robust) return the value their definition gives on exactly the logged samples, with weights clamped as configured and zero-propensity samples contributing no importance weight. Tabular value functions satisfy their policy's Bellman equation, first-visit averaging uses the first visit of an episode only, and running averages ignore undefined values.",
["inputs","configurations"],"every log, policy pair, reward model, clamp and discount",
"Tests run random environments and print or loosely compare.",
["reagent/ope/estimators/contextual_bandits_estimators.py","reagent/ope/estimators/sequential_estimators.py","reagent/ope/trainers/rl_tabular_trainers.py","reagent/ope/utils.py","reagent/ope/estimators/types.py"],[("estimators","reagent/ope/estimators/contextual_bandits_estimators.py")],[],["EstimatorResult"])
p("P24","Sparse features land in their own column with their presence",
"Turning sparse feature maps into dense input puts each known feature's value in its own column in the configured order, marks as present exactly the features that were given, fills the rest with the missing value (or zero, then marked present) and drops unknown features. Identifier features keep their offsets, map every identifier through its own table and are renamed by feature, one-hot, presence-mask, fixed-length-sequence and slate transforms keep rows and order, and malformed input is refused.",
["inputs","configurations"],"every set of sparse rows, feature order and transform pipeline",
"Tests use two or three fixed rows.",
["reagent/preprocessing/sparse_to_dense.py","reagent/preprocessing/sparse_preprocessor.py","reagent/preprocessing/transforms.py","reagent/preprocessing/batch_preprocessor.py"],[("dense layout","reagent/preprocessing/sparse_to_dense.py"),("id mapping","reagent/preprocessing/sparse_preprocessor.py")],[],["processor outputs"])
p("P25","Feature normalisation is column-faithful, bounded and monotone",
"Normalisation transforms each input column by its own feature's parameters and nothing else, in the documented column order grouped by feature type, with one output per enumerated value and otherwise one output per input. Missing entries become zero, normalised outputs stay within the accepted range, enumerations are one-hot (or all zero for unseen values), and quantile, probability and continuous features are monotone in their input, whatever mixture of feature types is configured.",
["inputs","configurations"],"every combination of feature types, parameter values, inputs and presence patterns",
"Tests use one fixed mixture of features and compare with a numpy reimplementation on random data.",
["reagent/preprocessing/preprocessor.py","reagent/preprocessing/normalization.py","reagent/preprocessing/identify_types.py"],[("type-grouped processing","reagent/preprocessing/preprocessor.py")],[],["Preprocessor.forward"])
p("P26","A served model answers exactly as the trained model would",
"A served model returns, for any raw input, the trained model's output on the normalised input, with action names aligned with their scores and missing features treated as in training; exporting does not freeze in anything input-dependent. Served continuous actions are mapped back to the environment's range, so that normalising a served action recovers the model's action within rounding, and acting through a served policy agrees with acting through the trained one.",
["inputs","configurations"],"every model parameter, raw input, presence pattern, batch size and action range",
"Tests run random inputs of the traced shape; tracing can freeze shape or value dependent behaviour.",
["reagent/prediction/predictor_wrapper.py","reagent/preprocessing/postprocessor.py","reagent/gym/policies/predictor_policies.py","reagent/gym/policies/scorers/discrete_scorer.py"],[("traced predictor wrappers","reagent/prediction/predictor_wrapper.py")],[],["wrapper output"])
p("P27","Every reported training metric reaches every interested observer once",
"A value reported by a component reaches each observer registered for it exactly once, in order and unchanged, observers registered twice are notified once, undefined values are skipped and undeclared ones rejected. Windowed aggregation reports each value in exactly one window, at every interval boundary and at the epoch's end and never an empty window, and the aggregates (mean, action counts and frequencies, per-action statistics, recent values, per-epoch series) equal those of the values received in that window.",
["histories","configurations"],"every registration and report sequence, interval and epoch boundary",
"Tests check one aggregator flow.",
["reagent/core/tracker.py","reagent/core/observers.py","reagent/core/aggregators.py","reagent/workflow/reporters/reporter_base.py"],[("observable notify","reagent/core/tracker.py"),("interval aggregation","reagent/core/observers.py")],[("window","values since last flush","reagent/core/observers.py")],["observer callbacks","aggregator output","training report"])
p("P28","Summary writing goes to the innermost active writer at the right step",
"Summaries are written to the innermost writer context active at that moment and nowhere else, at the global step reached so far; without an active writer they are dropped silently. Leaving a context, normally or by an error, restores the enclosing one, and a failing write is swallowed only if its exception type was declared ignorable.",
["histories","fault_sequences"],"every nesting of contexts, writes, step increments and write failures",
"Tests cover single nesting and one failure.",
["reagent/tensorboardX.py"],[("writer stack","reagent/tensorboardX.py")],[("writer stack","active writers","reagent/tensorboardX.py"),("global step","steps counted","reagent/tensorboardX.py")],["writer calls"])
p("P29","Configuration resolves to exactly the declared components",
"A configuration naming one alternative of a family builds that alternative with its given values and declared defaults, and one naming none or several is refused; every registered component is selectable by its name, duplicate names are refused, and families close once used. Defaults left out of a configuration equal the component's own, each instance gets its own copy, unknown or ill-typed values are refused, and equal settings have equal fingerprints.",
["configurations","histories"],"every subset of fields given, every registration order",
"Tests construct a few fixed configurations.",
["reagent/core/registry_meta.py","reagent/core/tagged_union.py","reagent/core/configuration.py","reagent/optimizer/union.py","reagent/optimizer/scheduler.py"],[("registry","reagent/core/registry_meta.py"),("tagged union","reagent/core/tagged_union.py"),("make_config_class / resolve_defaults","reagent/core/configuration.py")],[],["constructed objects, raised errors"])
p("P30","Training results are published only when valid, and found where published",
"A training workflow runs its stages in order and once, trains on exactly the training sample of the table for the epochs asked and evaluates on the disjoint evaluation sample, refusing shares that overlap or inputs that conflict; it exports every serving module of just that trained model to a file of its own. The model is published only if its validation says it should be, a missing model file is never published, and results handed back combine what each stage produced. Looking up a published model returns the most recently published one for that same module and configuration, whichever publisher on that store is asked, and never another's.",
["histories","configurations","fault_sequences"],"every sequence of train, validate, publish and lookup calls across several models, modules and publishers, and every sampling share",
"Tests publish a single model; the training workflow test cannot run here.",
["reagent/publishers/file_system_publisher.py","reagent/publishers/model_publisher.py","reagent/validators/model_validator.py","reagent/workflow/training.py","reagent/workflow/data/manual_data_module.py","reagent/workflow/model_managers/model_manager.py","reagent/workflow/types.py"],[("validate then publish","reagent/workflow/training.py"),("key-value store","reagent/publishers/file_system_publisher.py")],[("published models","key to path map","reagent/publishers/file_system_publisher.py")],["publish results","lookup results","exported models"])
p("P31","Supervised learners fit their targets, weighted and masked as configured",
"Reward, imitation, world-model, sequence-reward and compressed-model learners minimise the configured loss between their prediction and the logged target on exactly the rows and steps that count (rewards above the limit ignored, only the last step or the valid length where so configured), and step down its gradient once per configured number of batches. Evaluation reports that loss without moving any parameter and keeps the model that scored lowest; feature importance and sensitivity replace or permute exactly one feature at a time. Ranking metrics (DCG, average precision, AUC) score the predicted order of each list by their definitions, and the experience pool returns logged sequences intact.",
["inputs","configurations"],"every batch, weight, mask and loss option",
"Tests train to a threshold on random data.",
["reagent/training/reward_network_trainer.py","reagent/training/imitator_training.py","reagent/training/world_model/seq2reward_trainer.py","reagent/training/world_model/mdnrnn_trainer.py","reagent/training/world_model/compress_model_trainer.py"],[("loss computation","reagent/training/reward_network_trainer.py")],[],["losses","parameters after a train step"])
p("P32","Offline timelines link each step to its true successor",
"Building training timelines from logged tables links every logged step with the next step of the same episode, discounts multi-step rewards by the time between steps, and marks the last step of an episode terminal or drops it as configured.",
["inputs","configurations"],"every logged table",
"The Scala tests use small fixed tables.",
["preprocessing/src/main/scala/com/facebook/spark/rl/Timeline.scala","preprocessing/src/main/scala/com/facebook/spark/rl/MultiStepTimeline.scala"] ,[("window functions over episodes","preprocessing/src/main/scala/com/facebook/spark/rl/Timeline.scala")],[],["timeline tables"])
p("P33","The decision service logs and joins every decision with its feedback",
"Every decision the serving process returns is logged with the propensities it was sampled with, and joined with later feedback for the same request exactly once.",
["histories","schedules"],"every interleaving of decisions and feedback",
"The C++ tests exercise single requests.",
["serving/reagent/serving/core/DecisionService.cpp","serving/reagent/serving/core/LogJoiner.cpp"],[("log joiner","serving/reagent/serving/core/LogJoiner.cpp")],[],["log records"])
p("P34","Slate off-policy evaluation computes the laws, metrics and estimates it names",
"A slate policy's chance of a slate, its slate space, its table of item chances per slot and the slates it draws all follow from drawing items without replacement, slot by slot, with the present weights (greedily when deterministic), whatever was asked before and however slots and items are keyed. Slate metrics (sum, DCG, NDCG, ERR) and weights made of rewards equal their definitions. For every log, the direct, importance-sampling, position-based and doubly robust slate estimates equal their formulas on exactly the usable samples, with clamped weights and a model taught on the configured part of the log.",
["inputs","histories","configurations"],"every law, slate, order of questions, log, clamp and model",
"Tests compare a few constants for one seed.",
["reagent/ope/estimators/slate_estimators.py","reagent/ope/estimators/types.py"],[("slate laws and estimators","reagent/ope/estimators/slate_estimators.py")],[],["probabilities","expectation tables","metrics","EstimatorResult"])
p("P35","Training rows queried from a logged table are exactly its sampled steps",
"Querying a logged table yields exactly one training row for every logged step of the sampled episodes and none of the others: its own state, action and discounted (or derived) reward, and the next state, action, possible actions, metrics and time difference of the last step it spans, marked terminal exactly at the end of an episode. Features become columns in ascending order with presence flags, the same columns whatever the sample, and disjoint samples share no episode. Normalisation is identified from each feature's own values, and rows reach the learner in order, in batches, each feature normalised by its own rule.",
["inputs","configurations"],"every logged table, sample range, number of steps, discount, action set and reward expression",
"The query and workflow tests need Spark and cannot run here.",
["reagent/workflow/data_fetcher.py","reagent/workflow/identify_types_flow.py","reagent/workflow/utils.py","reagent/workflow/data/manual_data_module.py"],[("table to training rows","reagent/workflow/data_fetcher.py"),("identification query","reagent/workflow/identify_types_flow.py")],[],["queried rows","identified normalisation","training batches"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=len(re.findall(r"\.(\s|$)",x["statement"])); assert n<=3,(x["id"],n)
print(len(P))
