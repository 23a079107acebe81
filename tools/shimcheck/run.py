"""Differential test of the modelled library (hov/tensor.py, hov/shim.py) against real torch.
usage: python3-vt tools/shimcheck/run.py [probe...]
Sizes are symbolic in the modelled run; results are evaluated at two concrete size assignments."""
import os, sys, json, subprocess, tempfile, shutil, itertools
HERE = os.path.dirname(os.path.abspath(__file__))
SZ = [(2, 3, 4), (3, 4, 5)]


def val(nm, ix):
    s = sum((k + 2) * (2 * v + 1) for k, v in enumerate(ix)) * 7 + sum(map(ord, nm))
    return s


def fval(nm, ix):
    return ((val(nm, ix) * 37 + 11) % 29 - 14) / 8 + 1 / 16


def shapes(a, b, c):
    return dict(x=(a, b), y=(a, b), z=(a, b, c), w=(b, c), q=(a, b, c, c))


if "--real" in sys.argv:
    import torch, importlib.util
    sp = importlib.util.spec_from_file_location("probe", os.path.join(HERE, "probe.py"))
    M = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(M)
    out = {}
    for s, (a, b, c) in enumerate(SZ):
        args = {}
        for nm, sh in shapes(a, b, c).items():
            t = torch.empty(*sh)
            for ix in itertools.product(*map(range, sh)):
                t[ix] = fval(nm, ix)
            args[nm] = t
        m = torch.empty(a, b, dtype=torch.bool)
        i = torch.empty(a, b, dtype=torch.long)
        for ix in itertools.product(range(a), range(b)):
            m[ix] = val("m", ix) % 3 > 0
            i[ix] = val("i", ix) % b
        for n, f in M.P.items():
            r = f(**{k: v.clone() for k, v in args.items()}, m=m.clone(), i=i.clone())
            out[f"{n}/{s}"] = [[list(t.shape), t.double().flatten().tolist()] for t in r]
    json.dump(out, sys.stdout)
    sys.exit()
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
tmp = tempfile.mkdtemp(prefix="shim_")
pk = os.path.join(tmp, "high_order_layers_torch")
os.makedirs(pk)
open(os.path.join(pk, "__init__.py"), "w").close()
src = open(os.path.join(HERE, "probe.py")).read()
open(os.path.join(pk, "probe.py"), "w").write(src)
os.environ["HOV_REPO"] = tmp
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
from hov.harness import *            # noqa
from hov import prover as PR, core as C, terms as T
from hov.tensor import Tensor
real = json.loads(subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "--real"], capture_output=True, text=True, check=True).stdout)
H = Harness("SHIM", False)
M = H.mod("probe")


def env_for(s):
    a, b, c = SZ[s]
    e = PR.Env(0)
    for n_, v in zip("abc", (a, b, c)):
        e.vals[var(n_).single_atom()] = Fraction(v)

    def uf(name, args, sort):
        ix = tuple(int(t) for t in args)
        if name == "i":
            return Fraction(val("i", ix) % b)
        return Fraction(fval(name, ix))
    e.uf = uf

    class Tab(dict):
        def get(self, key, d=None):
            if key[0] == "b":
                return val("m", tuple(int(t) for t in key[2])) % 3 > 0
            return d
    e.tables = Tab()
    oc = e.child

    def child(v, x, self=e):
        n = PR.Env(0)
        n.vals = dict(self.vals)
        n.vals[v] = x
        n.tables, n.uf = self.tables, self.uf
        n.child = lambda v2, x2: child(v2, x2, n)
        return n
    e.child = child
    return e


def cell(t, ix, e):
    v = t.snap()(tuple(poly(j) for j in ix))
    if isinstance(v, B):
        return float(PR.ev_b(v, e))
    return float(PR.ev(poly(v), e))


def arity_split(src):
    """one probe per returned expression, so that an unsupported one does not hide the others"""
    import ast
    t = ast.parse(src)
    r = {}
    for f in t.body:
        if isinstance(f, ast.FunctionDef) and f.decorator_list:
            r[f.name] = [ast.unparse(x) for x in f.body[-1].value.elts]
    return r


exprs = arity_split(src)
# second module: one function per expression
import ast
tree = ast.parse(src)
body = []
for f in tree.body:
    if isinstance(f, ast.FunctionDef) and f.decorator_list:
        for j, x in enumerate(f.body[-1].value.elts):
            import copy
            g = copy.deepcopy(f)
            g.name = f"{f.name}__{j}"
            g.body[-1].value = x
            body.append(g)
    else:
        body.append(f)
tree.body = body
open(os.path.join(pk, "probe1.py"), "w").write(ast.unparse(tree))
M = H.mod("probe1")
only = [a for a in sys.argv[1:] if not a.startswith("-")]
good = bad = uns = 0
for name, xs in exprs.items():
    if only and name not in only:
        continue
    for j, ex in enumerate(xs):
        E.reset()
        C.FORWARD.clear(); C.LOOP_REC.clear()
        H.unpatch()
        seen = set()
        k = Case(H, f"{name}/{j}")

        def run():
            a, b, c = k.ints("a b c", 2)
            k.assume(ge0(c.p - 3), ge0(b.p - 3))
            sh = shapes(a, b, c)
            ii = k.tensor("i", a, b, dt="i")
            PR.UF_RANGE["i"] = lambda args: (ZERO, b.p - 1)
            PR.CORNER_RANGE["i"] = lambda args: (ZERO, b.p - 1)
            PR.FACTS["i"] = lambda args: [band(ge0(app("i", args, "I")), ge0(b.p - 1 - app("i", args, "I")))]
            return M.P[f"{name}__{j}"](**{n_: k.tensor(n_, *s_) for n_, s_ in sh.items()}, m=k.tensor("m", a, b, dt="b"), i=ii)
        st = "ok"
        try:
            PR.DEADLINE[0] = time.time() + 60
            for g, ctx, res in C.explore(run, 64):
                if res[0] == "exc":
                    st = f"exception {type(res[1]).__name__}: {res[1]}"
                    for s in range(len(SZ)):
                        if PR.ev_b(g, env_for(s)):
                            break
                    else:
                        st = "ok"
                        continue
                    break
                t = res[1]
                PR.DEFS.pop("i", None)
                sp_ = PR.UF_RANGE.pop("i", None)
                for s in range(len(SZ)):
                    e = env_for(s)
                    if not PR.ev_b(g, e):
                        continue
                    seen.add(s)
                    rs, rv = real[f"{name}/{s}"][j]
                    shp = [int(PR.ev(poly(d), e)) for d in t._shape]
                    if shp != rs:
                        st = f"SHAPE {shp} real {rs}"
                        break
                    for o, ix in enumerate(itertools.product(*map(range, shp))):
                        got = cell(t, ix, e)
                        if abs(got - rv[o]) > 1e-4 * (1 + abs(rv[o])):
                            st = f"VALUE at {ix}: {got} real {rv[o]}"
                            break
                    if st != "ok":
                        break
                if st != "ok":
                    break
            if st == "ok" and len(seen) < len(SZ):
                st = f"no path for sizes {set(range(len(SZ))) - seen}"
        except (Unsupported, PR.Timeout) as u:
            st = f"unsupported {u}"
            if "-v" in sys.argv:
                traceback.print_exc()
        except SideFail as u:
            st = f"side {u.what}"
        except Exception as u:
            st = f"error {type(u).__name__} {u}"
            if "-v" in sys.argv:
                traceback.print_exc()
        finally:
            PR.DEADLINE[0] = None
            while E.journal:
                E.journal.pop()
        if st == "ok":
            good += 1
        else:
            if st.startswith(("VALUE", "SHAPE", "no path")):
                bad += 1
            else:
                uns += 1
            print(f"{name}[{j}] {ex[:60]}: {st[:160]}")
shutil.rmtree(tmp)
print(f"{good} expressions agree, {bad} differ, {uns} not modelled")
sys.exit(1 if bad else 0)
