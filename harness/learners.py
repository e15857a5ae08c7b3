"""Real learners of every kind, built by the project's own model managers on tiny networks."""
import random

import stubs  # noqa: F401
import torch

import reagent.types as rlt
from reagent.optimizer.union import Optimizer__Union, classes as OPT
from reagent.parameters import EvaluationParameters, NormalizationData, NormalizationKey, NormalizationParameters, RLParameters
from reagent.net_builder.categorical_dqn.categorical import Categorical
from reagent.net_builder.continuous_actor.fully_connected import FullyConnected as ActorFC
from reagent.net_builder.continuous_actor.gaussian_fully_connected import GaussianFullyConnected
from reagent.net_builder.discrete_actor.fully_connected import FullyConnected as DiscActorFC
from reagent.net_builder.discrete_dqn.dueling import Dueling
from reagent.net_builder.discrete_dqn.fully_connected import FullyConnected as DqnFC
from reagent.net_builder.parametric_dqn.fully_connected import FullyConnected as ParamFC
from reagent.net_builder.quantile_dqn.quantile import Quantile
from reagent.net_builder.quantile_dqn.dueling_quantile import DuelingQuantile
from reagent.net_builder.value.fully_connected import FullyConnected as ValueFC
from reagent.net_builder.unions import (CategoricalDQNNetBuilder__Union, ContinuousActorNetBuilder__Union, DiscreteActorNetBuilder__Union,
                                        DiscreteDQNNetBuilder__Union, ParametricDQNNetBuilder__Union, QRDQNNetBuilder__Union, ValueNetBuilder__Union)
from reagent.training import (C51TrainerParameters, CRRTrainerParameters, DQNTrainerParameters, ParametricDQNTrainerParameters, QRDQNTrainerParameters,
                              SACTrainerParameters, SlateQTrainerParameters, TD3TrainerParameters)
from reagent.workflow.model_managers.actor_critic.sac import SAC
from reagent.workflow.model_managers.actor_critic.td3 import TD3
from reagent.workflow.model_managers.discrete.discrete_c51dqn import DiscreteC51DQN
from reagent.workflow.model_managers.discrete.discrete_crr import DiscreteCRR
from reagent.workflow.model_managers.discrete.discrete_dqn import DiscreteDQN
from reagent.workflow.model_managers.discrete.discrete_qrdqn import DiscreteQRDQN
from reagent.workflow.model_managers.parametric.parametric_dqn import ParametricDQN
from reagent.workflow.model_managers.ranking.slate_q import SlateQ
from reagent.workflow.types import RewardOptions

KINDS = ["dqn", "c51", "qrdqn", "pdqn", "td3", "sac", "crr", "slateq"]
S, A, ADIM = 2, 2, 1
ACT = "leaky_relu"


def norm(dim, ftype="CONTINUOUS", base=0):
    return NormalizationData(dense_normalization_parameters={base + i: NormalizationParameters(feature_type=ftype, mean=0.0, stddev=1.0, min_value=-1.0, max_value=1.0)
                                                             for i in range(dim)})


def options(rng, kind):
    """a random option combination of one learner kind"""
    o = {"tau": rng.choice([0, 1, 4, 8, 16]), "lr": rng.choice([1, 2, 4]), "gamma": rng.choice([0, 8, 12]), "maxq": rng.random() < 0.7, "twin": rng.random() < 0.5,
         "heads": False, "delay": 1, "value": False, "alpha": False, "dueling": False, "double": rng.random() < 0.5, "single": rng.random() < 0.5,
         "metrics": 0}
    if kind in ("dqn", "qrdqn", "crr"):
        o["heads"] = rng.random() < 0.6
        o["metrics"] = rng.choice([0, 0, 1, 2]) if o["heads"] else 0
        o["dueling"] = rng.random() < 0.4
    if kind in ("td3", "crr"):
        o["delay"] = rng.randint(1, 3)
    if kind == "crr":
        o["maxq"] = True
    if kind == "sac":
        o["value"], o["alpha"] = rng.random() < 0.5, rng.random() < 0.5
    if kind == "slateq":
        o["maxq"] = False
    return o


def manager(kind, o):
    """(manager, nets builder info) for a learner kind"""
    actions = o.get("actions") or [str(i) for i in range(A)]
    sgd = Optimizer__Union(Adam=OPT["Adam"](lr=o["lr"] / 16)) if o.get("adam") else Optimizer__Union(SGD=OPT["SGD"](lr=o["lr"] / 16))
    rl = RLParameters(gamma=o["gamma"] / 16, target_update_rate=o["tau"] / 16, maxq_learning=o["maxq"], temperature=1.0)
    ev = EvaluationParameters(calc_cpe_in_training=o["heads"])
    fc = dict(sizes=[], activations=[]) if o.get("flat") else dict(sizes=[2], activations=[ACT])
    dfc = lambda: DqnFC(**fc)
    pfc = lambda: ParametricDQNNetBuilder__Union(FullyConnected=ParamFC(**fc))
    dq = DiscreteDQNNetBuilder__Union(Dueling=Dueling(**fc)) if o["dueling"] else DiscreteDQNNetBuilder__Union(FullyConnected=dfc())
    cpe = DiscreteDQNNetBuilder__Union(FullyConnected=dfc())
    if kind == "dqn":
        return DiscreteDQN(trainer_param=DQNTrainerParameters(actions=actions, rl=rl, double_q_learning=o["double"], optimizer=sgd), net_builder=dq, cpe_net_builder=cpe, eval_parameters=ev)
    if kind == "c51":
        return DiscreteC51DQN(trainer_param=C51TrainerParameters(actions=actions, rl=rl, double_q_learning=o["double"], optimizer=sgd, num_atoms=3, qmin=-2.0, qmax=2.0),
                              net_builder=CategoricalDQNNetBuilder__Union(Categorical=Categorical(**fc)), eval_parameters=ev)
    if kind == "qrdqn":
        nb = QRDQNNetBuilder__Union(DuelingQuantile=DuelingQuantile(**fc)) if o["dueling"] else QRDQNNetBuilder__Union(Quantile=Quantile(**fc))
        return DiscreteQRDQN(trainer_param=QRDQNTrainerParameters(actions=actions, rl=rl, double_q_learning=o["double"], optimizer=sgd, cpe_optimizer=sgd, num_atoms=3),
                             net_builder=nb, cpe_net_builder=cpe, eval_parameters=ev)
    if kind == "pdqn":
        return ParametricDQN(trainer_param=ParametricDQNTrainerParameters(rl=rl, double_q_learning=o["double"], optimizer=sgd), net_builder=pfc(), eval_parameters=ev)
    if kind == "td3":
        return TD3(trainer_param=TD3TrainerParameters(rl=rl, q_network_optimizer=sgd, actor_network_optimizer=sgd, delayed_policy_update=o["delay"], noise_variance=0.0),
                   actor_net_builder=ContinuousActorNetBuilder__Union(FullyConnected=ActorFC(**fc)), critic_net_builder=pfc(), use_2_q_functions=o["twin"], eval_parameters=ev)
    if kind == "sac":
        return SAC(trainer_param=SACTrainerParameters(rl=rl, q_network_optimizer=sgd, actor_network_optimizer=sgd, value_network_optimizer=sgd,
                                                      alpha_optimizer=sgd if o["alpha"] else None, entropy_temperature=0.25),
                   actor_net_builder=ContinuousActorNetBuilder__Union(GaussianFullyConnected=GaussianFullyConnected(**fc)), critic_net_builder=pfc(),
                   value_net_builder=ValueNetBuilder__Union(FullyConnected=ValueFC(**fc)) if o["value"] else None, use_2_q_functions=o["twin"], eval_parameters=ev)
    if kind == "crr":
        return DiscreteCRR(trainer_param=CRRTrainerParameters(actions=actions, rl=rl, double_q_learning=o["twin"], q_network_optimizer=sgd, actor_network_optimizer=sgd,
                                                              delayed_policy_update=o["delay"]),
                           actor_net_builder=DiscreteActorNetBuilder__Union(FullyConnected=DiscActorFC(**fc)), critic_net_builder=dq, cpe_net_builder=cpe, eval_parameters=ev)
    if kind == "slateq":
        return SlateQ(slate_feature_id=1, slate_score_id=(1, 2), slate_size=2, num_candidates=3,
                      trainer_param=SlateQTrainerParameters(rl=rl, optimizer=sgd, single_selection=o["single"]), net_builder=pfc())
    raise ValueError(kind)


class Learner:
    def __init__(self, kind, o, seed, warmstart=None):
        torch.manual_seed(seed)
        self.kind, self.o = kind, o
        self.manager = m = manager(kind, o)
        nd = {NormalizationKey.STATE: norm(S), NormalizationKey.ACTION: norm(A if kind == "pdqn" else ADIM, "CONTINUOUS_ACTION" if kind in ("td3", "sac") else "CONTINUOUS", 10),
              NormalizationKey.ITEM: norm(ADIM, base=20)}
        self.trainer = t = m.initialize_trainer(use_gpu=False, reward_options=RewardOptions(metric_reward_values={f"m{i}": 1.0 for i in range(o["metrics"])} or None), normalization_data_map=nd, warmstart_path=warmstart)
        names = {"dqn": ["q_network"], "c51": ["q_network"], "qrdqn": ["q_network"], "pdqn": ["q_network", "reward_network"], "slateq": ["q_network"],
                 "td3": ["q1_network", "actor_network"], "sac": ["q1_network", "actor_network"], "crr": ["q1_network", "actor_network"]}[kind]
        tg = {"dqn": ["q_network"], "c51": ["q_network"], "qrdqn": ["q_network"], "pdqn": ["q_network"], "slateq": ["q_network"],
              "td3": ["q1_network", "actor_network"], "sac": [] if o["value"] else ["q1_network"], "crr": ["q1_network", "actor_network"]}[kind]
        if kind in ("td3", "sac", "crr") and o["twin"]:
            names = names + ["q2_network"]
            if not o["value"]:
                tg = tg + ["q2_network"]
        if kind == "sac" and o["value"]:
            names = names + ["value_network"]
            tg = ["value_network"]
        if kind == "sac" and o["alpha"]:
            names = names + ["log_alpha"]
        if o["heads"]:
            names = names + ["reward_network", "q_network_cpe"]
            tg = tg + ["q_network_cpe"]
        self.nets = {n: getattr(t, n) for n in names}
        self.pairs = {n: (getattr(t, n), getattr(t, n + "_target")) for n in tg}

    def batch(self, seed, n=3):
        return make_batch(self.kind, self.o, seed, n)


def make_batch(kind, o, seed, n):
    r = random.Random(seed)
    f = lambda *sh: torch.tensor([r.randint(-8, 8) / 8 for _ in range(int(torch.tensor(sh).prod()))]).reshape(*sh)
    fd = rlt.FeatureData
    nt = torch.tensor([[float(r.random() < 0.8)] for _ in range(n)])
    nt[0] = 1.0
    onehot = lambda: torch.nn.functional.one_hot(torch.tensor([r.randrange(A) for _ in range(n)]), A).float()
    ex = rlt.ExtraData(action_probability=torch.ones(n, 1), metrics=f(n, o["metrics"]) if o["metrics"] else None)
    base = dict(state=fd(f(n, S)), next_state=fd(f(n, S)), reward=f(n, 1) + 1.0, time_diff=torch.ones(n, 1), step=None, not_terminal=nt, extras=ex)
    if kind in ("dqn", "c51", "qrdqn", "crr"):
        return rlt.DiscreteDqnInput(action=onehot(), next_action=onehot(), possible_actions_mask=torch.ones(n, A), possible_next_actions_mask=torch.ones(n, A), **base)
    if kind == "pdqn":
        tiled = torch.eye(A).repeat(n, 1)
        return rlt.ParametricDqnInput(action=fd(onehot()), next_action=fd(onehot()), possible_actions=fd(tiled), possible_actions_mask=torch.ones(n, A),
                                      possible_next_actions=fd(tiled), possible_next_actions_mask=torch.ones(n, A), **base)
    if kind in ("td3", "sac"):
        return rlt.PolicyNetworkInput(action=fd(f(n, ADIM) * 0.75), next_action=fd(f(n, ADIM) * 0.75), **base)
    docs = lambda: rlt.DocList(float_features=f(n, 3, ADIM), mask=torch.ones(n, 3, dtype=torch.bool), value=f(n, 3).abs() + 0.25)
    slate = lambda: torch.tensor([r.sample(range(3), 2) for _ in range(n)])
    rm = torch.tensor([[True, r.random() < 0.5] for _ in range(n)])
    if not o["single"]:
        rm = torch.ones(n, 2, dtype=torch.bool)
    base["reward"] = f(n, 2) + 1.0
    base["state"] = fd(base["state"].float_features, candidate_docs=docs())
    base["next_state"] = fd(base["next_state"].float_features, candidate_docs=docs())
    return rlt.SlateQInput(action=slate(), next_action=slate(), reward_mask=rm, **base)
