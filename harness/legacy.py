"""The learners outside the lightning loop, on tiny networks."""
import stubs  # noqa: F401
import torch

from reagent.gym.policies.policy import Policy
from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.seq2slate import BaselineNet, Seq2SlateTransformerNet
from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet
from reagent.models.world_model import MemoryNetwork
from reagent.optimizer.union import Optimizer__Union, classes as OPT
from reagent.parameters import MDNRNNTrainerParameters, Seq2RewardTrainerParameters, Seq2SlateParameters
from reagent.parameters_seq2slate import SimulationParameters
from reagent.training.ppo_trainer import PPOTrainer
from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer
from reagent.training.ranking.seq2slate_sim_trainer import Seq2SlateSimulationTrainer
from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from reagent.training.reinforce import Reinforce, ReinforceParams
from reagent.training.reward_network_trainer import RewardNetTrainer
from reagent.training.world_model.compress_model_trainer import CompressModelTrainer
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer

KINDS = ["reinforce", "ppo", "reward", "mdnrnn", "seq2reward", "compress", "s2s", "s2s_sim", "s2s_dr", "s2s_tf", "s2s_attn"]


def sgd(lr):
    return Optimizer__Union(SGD=OPT["SGD"](lr=lr))


def slate_net(seed, arch="frechet_sort", src=3, tgt=2):
    from reagent.model_utils.seq2slate_utils import Seq2SlateOutputArch
    torch.manual_seed(seed)
    return Seq2SlateTransformerNet(state_dim=2, candidate_dim=2, num_stacked_layers=1, dim_model=4, max_src_seq_len=src, max_tgt_seq_len=tgt,
                                   output_arch=Seq2SlateOutputArch(arch), temperature=1.0, num_heads=2, dim_feedforward=4)


def make(kind, base, seed):
    """a learner of the kind; base: with its optional baseline"""
    torch.manual_seed(seed)
    fc = lambda i, o: FullyConnectedNetwork([i, 2, o], ["leaky_relu", "linear"])
    o = sgd(0.1)
    if kind in ("reinforce", "ppo"):
        pol = Policy(scorer=fc(2, 2), sampler=SoftmaxActionSampler())
        v = fc(2, 1) if base else None
        if kind == "reinforce":
            return Reinforce(pol, ReinforceParams(optimizer=o, optimizer_value_net=o, normalize=not base), value_net=v)
        return PPOTrainer(pol, optimizer=o, optimizer_value_net=o, normalize=not base, value_net=v)
    if kind == "reward":
        return RewardNetTrainer(Seq2SlateGRURewardNet(state_dim=2, candidate_dim=2, num_stacked_layers=1, dim_model=4, max_src_seq_len=3, max_tgt_seq_len=2), optimizer=o)
    if kind == "mdnrnn":
        return MDNRNNTrainer(MemoryNetwork(2, 2, 4, 1, 2), MDNRNNTrainerParameters())
    s2r = lambda: Seq2RewardNetwork(2, 2, 4, 1)
    p = Seq2RewardTrainerParameters(multi_steps=2, action_names=["0", "1"], step_predict_net_size=2)
    if kind == "seq2reward":
        return Seq2RewardTrainer(s2r(), p)
    if kind == "compress":
        return CompressModelTrainer(fc(2, 2), s2r(), p)
    net = slate_net(seed, "encoder_score" if kind == "s2s_attn" else "frechet_sort" if kind not in ("s2s_dr", "s2s_tf") else "autoregressive")
    b = BaselineNet(2, 2, 1) if base else None
    sp = Seq2SlateParameters(simulation=SimulationParameters(reward_name_weight={"a": 1.0}, reward_name_power={"a": 1.0}, reward_name_path={"a": ""}))
    if kind == "s2s":
        return Seq2SlateTrainer(net, baseline_net=b, policy_optimizer=o, baseline_optimizer=o)
    if kind == "s2s_sim":
        return Seq2SlateSimulationTrainer(net, 4, sp, baseline_net=b, policy_optimizer=o, baseline_optimizer=o)
    if kind == "s2s_dr":
        return Seq2SlateDifferentiableRewardTrainer(net, sp, 4, policy_optimizer=o)
    if kind == "s2s_tf":
        return Seq2SlateTeacherForcingTrainer(net, sp, 4, policy_optimizer=o)
    return Seq2SlatePairwiseAttnTrainer(net, policy_optimizer=o)


def nets(t):
    """every network a learner holds"""
    return {k: v for k, v in vars(t).items() if isinstance(v, torch.nn.Module) and any(True for _ in v.parameters())}
