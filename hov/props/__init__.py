PROPS = {}
CONTRACTS = {}


def prop(pid, contracts=("lag", "fold")):
    def deco(f):
        PROPS.setdefault(pid, []).append(f)
        CONTRACTS[pid] = contracts
        return f
    return deco


from . import fc, conv, refine, misc, attn, net          # noqa
from .contracts import VERIFY   # noqa
