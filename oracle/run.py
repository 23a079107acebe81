"""Runtime oracle: runs the real code of the tree under /opt/venv python through its public
API and compares with an independent float64 computation.  Bounded: used to replay
countermodels and to cross-check the verifier's model of torch."""
import argparse, json, os, subprocess, sys, traceback, warnings, time

warnings.filterwarnings("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default=None)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--hints", default=None)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--search", default=None, help="file with numbers: look for a failing input around them")
    ap.add_argument("--serve", action="store_true", help="answer on standard output whether the property holds at the settings read")
    ap.add_argument("--seconds", type=float, default=150)
    a = ap.parse_args()
    sys.dont_write_bytecode = True
    answers = None
    if a.serve:                          # keep standard output for the answers
        answers = os.fdopen(os.dup(1), "w")
        os.dup2(2, 1)
    sys.path.insert(0, a.repo)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import base
    hints = json.load(open(a.hints)) if a.hints else []
    R = base.Run(a.pid, a.seed, a.thorough, hints)
    base.install_guard()
    import importlib
    for m in ("o_fc", "o_conv", "o_refine", "o_misc", "o_net"):
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            try:
                importlib.import_module(m)
            except Exception:
                # importing the library itself failed: that is a failing input for everything
                R.error = traceback.format_exc()[-1500:]
    for f in base.ORACLES.get(a.pid, []):
        R.run(f)
    searched = None
    if a.serve:
        if not R.failures:
            R.serve(json.load(open(a.search)), sys.stdin, answers)
        return
    if a.search and not R.failures:
        ref = os.path.join(os.path.dirname(os.path.abspath(__file__)), "reference.zip")
        cmd = [sys.executable, os.path.abspath(__file__), a.pid, "--seed", str(a.seed), "--repo", ref, "--search", a.search, "--serve"]
        cmd += (["--hints", a.hints] if a.hints else []) + (["--thorough"] if a.thorough else [])
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

        def valid(key):
            p.stdin.write(key + "\n")
            p.stdin.flush()
            return p.stdout.readline() == "ok\n"
        try:
            if p.stdout.readline() == "ready\n":
                R.search(json.load(open(a.search)), a.seconds, valid)
        except OSError:
            pass
        searched = R.configs
        p.kill()
    res = dict(checked=R.checked, configs=R.configs, failures=R.failures, seconds=time.time() - R.t0, error=R.error, searched=searched)
    if a.out:
        json.dump(res, open(a.out, "w"), default=str)
    else:
        print(json.dumps(res, indent=1, default=str))


main()
