"""Check driver of one property: verify contracts on the code extracted from the current
tree, cross-check / replay on the real code, decide, write evidence.

  python3-vt -m hov.check C02 [--thorough]
"""
import json, os, sys, time, subprocess, multiprocessing as mp, multiprocessing.connection, signal, traceback, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "hov.check"] + sys.argv[1:])

from .harness import *                                   # noqa
from . import prover as PR, loader as LD
from .props import PROPS, CONTRACTS, VERIFY

TRUSTED = [
    "extraction: hov/loader.py parses the .py files of the tree on every run and executes their statements on symbolic values; it rewrites only (a) loops over symbolic ranges into an unbounded-iteration combinator (loop body summarised for an arbitrary iteration), (b) / ** [] = and attribute stores into calls that journal effects, (c) imports of torch/numpy/einops/lightning into the modelled library; nothing else is dropped",
    "assumed contracts of dependencies: hov/shim.py and hov/tensor.py (torch, numpy, einops, lightning operations as index functions over mathematical tensors); cross-checked against real torch by the runtime oracle of the same property on every run",
    "machine arithmetic treated as mathematical: float32 as reals, integers unbounded, no NaN/inf, no rounding",
    "hov/prover.py: ring normalisation, case splitting, sum/product rules; arithmetic entailments discharged by z3 (python3-vt z3-solver)",
    "mathematical facts used as rewrite rules (cos injective on [0,pi], Lagrange nodal values/scaling/exactness, segment refinement, range of the periodic fold, sum splitting, entry <= norm): proved in lean/Facts.lean with Lean 4 + Mathlib",
    "autograd, device placement, serialisation and the training loop are outside the contracts unless a property names them",
]

H = None
CASES = []
CASE_FINAL = {}          # contract cases that state a property themselves


def dead(i, why):
    full, body, kw = CASES[i]
    return dict(i=i, case=full, contract=kw.get("contract"), obs=[], unsupported=[], side=[], notes=[], bounded=[], called=[], uses={}, stats={}, secs=0.0, err=why)


def child(wr, *args):
    os.setpgid(0, 0) if False else None
    wr.send(worker(*args))
    wr.close()


def worker(i, budget, case_budget, wall):
    PR.WALL[0] = wall
    full, body, kw = CASES[i]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(case_budget) + 60)
    t0 = time.time()
    h = H
    h.collect = None
    h.budget, h.case_budget = budget, case_budget
    PR.STATS.update({k: 0 for k in PR.STATS})
    err = None
    try:
        h.run_case(full, body, **kw)
    except BaseException as e:
        err = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
    signal.alarm(0)
    return dict(i=i, case=full, contract=kw.get("contract"), obs=[o.json() for o in h.obs], unsupported=[list(map(str, u)) for u in h.unsupported],
                side=[list(map(str, s)) for s in h.side], notes=h.notes, bounded=h.bounded, called=sorted(map(str, h.called)),
                uses=h.contract_uses, stats=dict(PR.STATS), secs=time.time() - t0, err=err)


def _alarm(*a):
    raise TimeoutError("case wall clock")


def run_phase(pid, contracts, thorough, only=None, procs=8, budget=40, case_budget=120, wall=330, early=None):
    """Verify all (or the named) cases in forked workers."""
    global H, CASES
    h = Harness(pid, contracts, budget=budget, case_budget=case_budget, thorough=thorough)
    h.collect = []
    for m in MODS:
        try:
            h.mod(m)
        except FileNotFoundError:
            pass
        except ModuleNotFoundError:
            pass
    if contracts:
        for c in CONTRACTS[pid]:
            VERIFY[c](h)
    for f in PROPS[pid]:
        f(h)
    cases = [c for c in h.collect if only is None or c[0] in only]
    H, CASES = h, cases
    CASE_FINAL.update({c[0]: c[2].get("final") for c in cases})
    out = []
    if not cases:
        return out, h
    ctx = mp.get_context("fork")
    todo = list(range(len(cases)))
    again = set()
    live = {}
    end = time.time() + wall
    while todo or live:
        if early is not None and early():
            end, early = min(end, time.time() + 40), None
        while todo and len(live) < procs:
            i = todo.pop(0)
            if time.time() > end:
                out.append(dead(i, "time budget of the phase exhausted"))
                continue
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(wr, i, budget, case_budget, 10 if i in again else 2.5), daemon=True)
            p.start()
            wr.close()
            live[i] = (p, rd, time.time())
        ready = mp.connection.wait([v[1] for v in live.values()], timeout=1.0)
        for i, (p, rd, ts) in list(live.items()):
            if rd in ready:
                try:
                    r = rd.recv()
                    # an answer that depended on the solver's wall clock is not final: repeat with a longer one
                    if i not in again and r["stats"].get("z3_wall") and any(o["status"] == "unknown" and "timeout" not in o["info"] for o in r["obs"]) \
                            and time.time() + 60 < end:
                        again.add(i)
                        todo.append(i)
                    else:
                        out.append(r)
                except EOFError:
                    out.append(dead(i, "verifier process ended without a result"))
            elif time.time() - ts > case_budget + 20 or time.time() > end + 15:
                out.append(dead(i, "case wall clock"))
            else:
                continue
            p.kill()
            p.join()
            rd.close()
            del live[i]
    out.sort(key=lambda r: r["i"])
    return out, h


MODS = ["utils", "LagrangePolynomial", "Basis", "PolynomialLayers", "ProductLayer", "FunctionalConvolution", "FunctionalConvolutionTranspose",
        "layers", "networks", "attentions", "positional_embeddings", "modules", "sparse_optimizers"]


def case_bad(r):
    """Why a case is not fully proved: list of (kind, text)."""
    out = []
    if r["err"]:
        out.append(("tool", "verifier error: " + r["err"][-1200:]))
    for u in r["unsupported"]:
        out.append(("tool", f"{u[0]}: {u[1]} {u[2:]}"))
    for o in r["obs"]:
        if o["status"] == "proved":
            continue
        if o["status"] == "unknown" and "timeout" in o["info"]:
            out.append(("tool", f"{o['name']}: solver time budget exhausted"))
        elif o["kind"] == "side" and o["status"] != "refuted":
            out.append(("side", o["name"]))
        else:
            out.append(("fail", o))
    return out


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="hov_")
    try:
        rc = decide(pid, thorough, seed, t0, scratch)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def constants():
    """Numbers that occur in the source, per file."""
    import ast
    from collections import Counter
    out = {}
    for d, _, fs in os.walk(os.path.join(LD.REPO, "high_order_layers_torch")):
        for f in sorted(fs):
            if f.endswith(".py"):
                try:
                    t = ast.parse(open(os.path.join(d, f)).read())
                except (SyntaxError, ValueError, OSError):
                    continue
                out[f] = Counter(repr(n.value) for n in ast.walk(t) if isinstance(n, ast.Constant) and type(n.value) in (int, float))
    return out


def search_numbers():
    """Numbers of the current tree that the recorded tree does not have (all, if that leaves none)."""
    from collections import Counter
    now = constants()
    base = {f: Counter(c) for f, c in json.load(open(os.path.join(ROOT, "oracle", "constants.json"))).items()}
    new = set()
    for f, c in now.items():
        new |= set((c - base.get(f, Counter())).keys())
    r = sorted({float(x) for x in new} - {0.0, 1.0, 2.0, 0.5, float("inf")})
    return [int(x) if x.is_integer() and abs(x) < 1e9 else x for x in r][:24]


def start_oracle(pid, seed, thorough, scratch, hints=None, tag="o", search=None, seconds=None):
    out = os.path.join(scratch, f"{tag}.json")
    cmd = ["/opt/venv/bin/python", os.path.join(ROOT, "oracle", "run.py"), pid, "--seed", str(seed), "--out", out, "--repo", LD.REPO]
    if thorough:
        cmd.append("--thorough")
    if hints:
        hp = os.path.join(scratch, f"{tag}_hints.json")
        json.dump(hints, open(hp, "w"))
        cmd += ["--hints", hp]
    if search is not None:
        sp = os.path.join(scratch, f"{tag}_search.json")
        json.dump(search, open(sp, "w"))
        cmd += ["--search", sp]
    if seconds is not None:
        cmd += ["--seconds", str(int(seconds))]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    p = subprocess.Popen(cmd, stdout=open(os.path.join(scratch, tag + ".log"), "w"), stderr=subprocess.STDOUT, env=env, cwd=scratch)
    return p, out


def peek(h):
    """The runtime oracle has already found a failing input."""
    try:
        return h[0].poll() is not None and bool(json.load(open(h[1])).get("failures"))
    except Exception:
        return False


def get_oracle(h, limit):
    p, out = h
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
    try:
        return json.load(open(out))
    except Exception:
        log = out[:-5] + ".log"
        tail = open(log).read()[-1500:] if os.path.exists(log) else ""
        return dict(checked=0, failures=[], error=tail or "no output")


def start_lean():
    try:
        return subprocess.Popen(["lean", os.path.join(ROOT, "lean", "Facts.lean")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except OSError:
        return None


def run_lean(p):
    """Thorough tier: the mathematical facts behind the rewrite rules are re-checked by Lean."""
    if p is None:
        return "not run in this tier (lean/Facts.lean is checked by --thorough)"
    try:
        out, _ = p.communicate(timeout=600)
    except subprocess.TimeoutExpired:
        p.kill()
        return "timeout"
    return "accepted by Lean" if p.returncode == 0 and "error" not in out and "sorry" not in out else "REJECTED: " + out[:1000]


def decide(pid, thorough, seed, t0, scratch):
    leanp = start_lean() if thorough else None
    orc = start_oracle(pid, seed, thorough, scratch)
    budget, cb = (120, 500) if thorough else (40, 120)
    wall = 3000 if thorough else 330
    load_err = None
    A, B, h = [], [], None
    try:
        A, h = run_phase(pid, True, thorough, budget=budget, case_budget=cb, wall=wall, early=lambda: peek(orc))
        bad_contract = [r for r in A if r["contract"] and case_bad(r)]
        main_cases = [r for r in A if not r["contract"]]
        off = sorted({r["contract"] for r in bad_contract})
        used_bad = any(u in off for r in main_cases for u in r["uses"])
        redo = {r["case"] for r in main_cases if case_bad(r) or any(u in off for u in r["uses"])}
        if redo and not peek(orc):
            B, h2 = run_phase(pid, False, thorough, only=redo, budget=budget, case_budget=cb, wall=max(60, wall * 0.6))
        # per case: proved with (valid) contracts, or proved inlined, else take the inline result
        byname = {r["case"]: r for r in B}
        final = []
        for r in main_cases:
            if r["case"] in byname:
                b = byname[r["case"]]
                invalid = any(u in off for u in r["uses"])
                if not case_bad(b):
                    final.append(("inlined", b))
                elif invalid or any(k == "fail" for k, _ in case_bad(b)):
                    final.append(("inlined", b))
                else:                      # inlined run hit a tool limit, contract run gave an answer
                    final.append(("modular", r))
            else:
                final.append(("modular", r))
        contract_ok = [r for r in A if r["contract"] and not case_bad(r)]
    except Exception as e:
        load_err = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        final, contract_ok, bad_contract, off = [], [], [], []
    fails, tools, sides = [], [], []
    for mode, r in final:
        for kd, x in case_bad(r):
            if kd == "fail":
                fails.append((r["case"], x))
            elif kd == "tool":
                tools.append(f"{r['case']}: {x}")
            else:
                sides.append(x)
    open_cases = {r["case"] for _, r in final if case_bad(r)}
    for r in bad_contract:
        if B and CASE_FINAL.get(r["case"]) and any(r["contract"] in q["uses"] and q["case"] in open_cases for q in main_cases):
            fails += [(r["case"], x) for kd, x in case_bad(r) if kd == "fail"]
    if not B:
        for r in bad_contract:
            if any(r["contract"] in q["uses"] for _, q in final):
                fails += [(r["case"], x) for kd, x in case_bad(r) if kd == "fail"]
    res = get_oracle(orc, 600 if thorough else 420)
    hints = []
    for c, o in fails:
        cm = o.get("countermodel") or {}
        if cm.get("scalars"):
            hints.append(cm["scalars"])
    ofail = list(res.get("failures", []))
    replay_res = None
    if (fails or tools) and not ofail and not load_err:
        left = 760 - (time.time() - t0) if not thorough else 900
        if left > 60:
            nums = search_numbers()
            replay_res = get_oracle(start_oracle(pid, seed + 1, True, scratch, hints[:12], "replay", nums, min(left - 40, 150 if fails or nums else 40)), min(left, 400))
            ofail = list(replay_res.get("failures", []))
    if load_err:
        tools.append("extraction failed: " + load_err[-800:])
    obs = [o for _, r in final for o in r["obs"]] + [o for r in contract_ok for o in r["obs"]]
    nside = {}
    for _, r in final:
        for s in r["side"]:
            nside[(s[0], s[1])] = s[2]
    stats = {}
    for r in A + B:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    disch = sum(o["status"] == "proved" for o in obs) + sum(v == "proved" for v in nside.values())
    total = len(obs) + len(nside)
    called = sorted({c for _, r in final for c in r["called"]})
    uses = {}
    for _, r in final:
        for k, v in r["uses"].items():
            uses[k] = uses.get(k, 0) + v
    unch = [f"{k[0]}: {k[1]}" for k, v in nside.items() if v != "proved"]
    if total == 0 or not final:
        tools.append("no obligations were generated")
    assumptions = [f"unchecked side condition (assumed): {u}" for u in unch[:40]]
    assumptions += [f"bounded stand-in by the runtime oracle (verifier could not process the case): {t[:300]}" for t in tools]
    assumptions += [f"contract switched off, callers verified with the body inlined: {c}" for c in off]
    assumptions += sorted({b for _, r in final for b in r["bounded"]})
    violations = 1 if (fails or ofail) else 0
    lean = run_lean(leanp)
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level="proof",
              coverage=dict(obligations=total, discharged=disch,
                            checker_cmd=f"python3-vt -m hov.check {pid}" + (" --thorough" if thorough else ""),
                            trusted_base=TRUSTED,
                            functions_under_contract=sorted(uses) , contract_call_sites_summarised=uses,
                            functions_executed_symbolically=called,
                            cases=[dict(case=r["case"], mode=m, obligations=len(r["obs"]), discharged=sum(o["status"] == "proved" for o in r["obs"]),
                                        seconds=round(r["secs"], 2)) for m, r in final],
                            contract_bodies_verified=[dict(case=r["case"], obligations=len(r["obs"])) for r in contract_ok],
                            backend=dict(z3_calls=stats.get("z3_calls", 0), z3_seconds=round(stats.get("z3_time", 0), 2), z3_unknown=stats.get("z3_unknown", 0),
                                         corner_procedure_calls=stats.get("corner", 0), case_splits=stats.get("splits", 0), congruence_merges=stats.get("merges", 0)),
                            mathematical_facts=lean,
                            sources=sorted(h.loader.sources) if h else [],
                            runtime_cross_check=dict(executions=res.get("checked", 0), configurations=res.get("configs", 0), error=res.get("error"),
                                                     label="bounded; replay of countermodels and cross-check of the modelled libraries, never counted as proved"),
                            not_proved=[dict(case=c, **{k: o[k] for k in ("name", "status", "info")}) for c, o in fails][:20]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=violations)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {disch}/{total} obligations discharged, {len(final)} cases, {len(contract_ok)} contract bodies verified, runtime cross-check {res.get('checked', 0)} executions, {time.time()-t0:.1f}s")
    for t in tools:
        print("BOUNDED-STAND-IN:", t[:400].replace("\n", " | "))
    if res.get("error"):
        print("ORACLE-ERROR:", res["error"][-800:])
    for line in known_findings(pid):
        print(line)
    if not violations:
        if not final and not res.get("checked"):
            print("no answer: neither the verifier nor the runtime oracle could process the tree")
            return 2
        return 0
    os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
    rp = os.path.join(ROOT, "replay", f"{pid}.json")
    json.dump(dict(property=pid, failed_obligations=[dict(case=c, **o) for c, o in fails],
                   failing_inputs=ofail[:10],
                   how_to_replay=f"/opt/venv/bin/python /verif/oracle/run.py {pid} --repo {LD.REPO} --seed {seed}" + (" --thorough" if replay_res else ""),
                   verifier_command=f"PYTHONHASHSEED=0 python3-vt -m hov.run {pid}"), open(rp, "w"), indent=1, default=str)
    for c, o in fails[:6]:
        print(f"FAILED OBLIGATION {o['name']} [{o['status']}] {o['info'][:300]}")
    for f in ofail[:3]:
        print("FAILING INPUT", json.dumps(f, default=str)[:400])
    print(f"VIOLATION property={pid} replay={rp}" + ("" if ofail else " no-failing-input-found"))
    return 1


def known_findings(pid):
    """Findings that are recorded, not repaired (none suppresses anything else)."""
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"known: property={pid} "):
                out.append("KNOWN-FINDING: " + l[len("known: "):].strip())
    return out


if __name__ == "__main__":
    main()
