import sys, time
from .harness import *
from .props import PROPS, CONTRACTS, VERIFY

if __name__ == "__main__":
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    uc = "--inline" not in sys.argv
    H = Harness(pid, uc, verbose=True, only=only if only and not only.startswith("--") else None, thorough="--thorough" in sys.argv)
    t = time.time()
    for c in CONTRACTS[pid]:
        VERIFY[c](H)
    for f in PROPS[pid]:
        f(H)
    print("TIME", time.time() - t, "UNSUPP", H.unsupported, "NOTPROVED", [o.name for o in H.obs if o.status != "proved"], "SIDE", [x for x in H.side if x[2] != "proved"], "NOTES", H.notes)
