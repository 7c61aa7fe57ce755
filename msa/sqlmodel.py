"""What surrounds a database in the programs analysed: waiting, and the random numbers waits are made of."""
from .absint import Unk


def nothing(I, n, st, fr):
    return [(s, None) for s, _ in I.evs(n.args, st, fr)]


def random(I, n, st, fr):
    return [(st, Unk("uint32_t", "random"))]


MODELS = {"std::this_thread::sleep_for": nothing, "std::this_thread::yield": nothing, "maidsafe::Sleep": nothing,
          "maidsafe::RandomUint32": random, "maidsafe::RandomInt32": random}
