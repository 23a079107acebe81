"""Regenerates what the search for failing inputs knows of the recorded tree: oracle/constants.json (the
numbers in its source) and oracle/reference.zip (its source, to discard inputs outside its domain)."""
import json, os, sys, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from hov import check
json.dump({f: dict(sorted(c.items())) for f, c in sorted(check.constants().items())}, open(os.path.join(check.ROOT, "oracle", "constants.json"), "w"), indent=1)
with zipfile.ZipFile(os.path.join(check.ROOT, "oracle", "reference.zip"), "w", zipfile.ZIP_DEFLATED) as z:
    for d, ds, fs in os.walk(os.path.join(check.LD.REPO, "high_order_layers_torch")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                z.writestr(zipfile.ZipInfo(os.path.relpath(p, check.LD.REPO), (2020, 1, 1, 0, 0, 0)), open(p, "rb").read())
