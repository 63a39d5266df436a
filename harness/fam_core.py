"""RPCore on the real code."""
import world  # noqa: F401  (first: the clock)
from world import rsa_key, ec_key
from core import Core, rp_keyjar

NAME = "core"
MODULE = "RPCoreMC"
VIEW = "Hide"
CONSTRAINT = "InBounds"
SIM = "RPCoreSim"
SIMSPEC = "SimSpec"
CONSTS = {"Wide": False, "Long": False}
SIMCONSTS = {"Long": True}
INVARIANTS = ["InvNonce", "InvOwn", "InvClear", "InvIss", "InvValid", "InvActive"]
PROPERTIES = ["PropIsolation", "PropFail", "PropFailFin", "PropAuthz", "PropIdt", "PropAns", "PropWire", "PropSub",
              "PropRefresh", "PropClear", "PropBack", "PropLogout"]


def make(P, seed, variant):
    return Core(P, seed, variant)


def warm():
    """make the keys once, before the processes are forked"""
    for n in ("op-A", "op-B", "op-X", "evil", "evil2"):
        rsa_key(n)
    for n in ("op2-A", "op2-B"):
        ec_key(n)
    rp_keyjar()
