import math, random, resource, signal, time, traceback
import numpy as np
import torch

ORACLES = {}


def oracle(*pids):
    def d(f):
        for p in pids:
            ORACLES.setdefault(p, []).append(f)
        return f
    return d


def install_guard():
    torch.set_num_threads(2)


class TooLong(BaseException):
    pass


def _alarm(*a):
    raise TooLong()


def limits():
    """Search mode tries odd sizes: bound the memory and the time of each attempt."""
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))


class Amp:
    """Random numbers of the oracle; in search mode symmetric ranges are stretched by a factor."""

    def __init__(self, seed):
        self.g, self.amp = np.random.default_rng(seed), 1.0

    def uniform(self, lo=0.0, hi=1.0, size=None):
        v = self.g.uniform(lo, hi, size)
        return v * self.amp if lo < 0 else v

    def __getattr__(self, k):
        return getattr(self.g, k)


class Run:
    def __init__(self, pid, seed, thorough, hints):
        self.pending, self.searching, self.serving = [], False, False
        self.pid, self.seed, self.thorough, self.hints = pid, seed, thorough, hints
        self.failures = []
        self.checked = 0
        self.configs = 0
        self.error = None
        self.t0 = time.time()
        self.rng = Amp(seed)
        self.cur = {}

    def run(self, f):
        self.rng = Amp(self.seed)
        torch.manual_seed(self.seed)
        random.seed(self.seed)
        np.random.seed(self.seed)
        try:
            f(self)
        except Exception as e:
            self.failures.append(dict(what=f"{type(e).__name__}: {e}", config=dict(self.cur), trace=traceback.format_exc()[-1200:], oracle=f.__name__))

    def over(self):
        return len(self.failures) >= 6

    def config(self, **kw):
        self.cur = kw
        self.configs += 1

    def guarded(self, f, /, **kw):
        """Run one configuration; an exception of the real code is a failing input."""
        if self.over():
            return
        self.config(**kw)
        if not self.searching:
            self.pending.append((f, kw))
        try:
            return f(**kw)
        except Exception as e:
            self.failures.append(dict(what=f"{type(e).__name__}: {e}", config=clean(kw), trace=traceback.format_exc()[-1200:]))

    def jobs(self, consts):
        """Settings to try, most promising first."""
        jobs, seen, rank = [], set(), {}
        for f, kw in self.pending:
            key = (f.__qualname__, tuple(v for v in kw.values() if isinstance(v, str)))
            rank[key] = rank.get(key, -1) + 1       # one representative per kind first, then the others
            for pr, nkw, amp in variants(kw, consts):
                jobs.append((pr + rank[key] * 3, len(jobs), f, nkw, amp))
        for _, _, f, kw, amp in sorted(jobs, key=lambda j: j[:2]):
            key = f"{f.__qualname__} {sorted(kw.items())!r} {amp}"
            if key not in seen:
                seen.add(key)
                yield key, f, kw, amp

    def attempt(self, f, kw, amp):
        """Run one configuration on its own; returns its failures."""
        self.rng = Amp(self.seed)
        self.rng.amp = amp
        torch.manual_seed(self.seed)
        random.seed(self.seed)
        np.random.seed(self.seed)
        self.config(**kw, **({} if amp == 1.0 else dict(data_scale=amp)))
        keep, self.failures = self.failures, []
        signal.setitimer(signal.ITIMER_REAL, 6)
        try:
            f(**kw)
        except (TooLong, MemoryError):
            self.failures = keep
            return None
        except Exception as e:
            if "alloc" in str(e):
                self.failures = keep
                return None
            self.failures.append(dict(what=f"{type(e).__name__}: {e}", config=clean(self.cur), trace=traceback.format_exc()[-1200:]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out, self.failures = self.failures, keep
        return out

    def search(self, consts, seconds, valid):
        """Look for a failing input around the numbers that occur in the code: sizes and settings next
        to each of them, data of that magnitude, longer shapes and lists.  Used only to exhibit an input
        for an obligation that failed; the answer never depends on it.  valid(key): the recorded tree
        satisfies the property there (otherwise the setting lies outside the code's domain)."""
        limits()
        self.searching, end = True, time.time() + seconds
        bad = {}
        for key, f, kw, amp in self.jobs(consts):
            if time.time() > end or len(self.failures) >= 2:
                break
            fl = self.attempt(f, kw, amp)
            if fl:
                c = (f.__qualname__, fl[0]["what"][:25])
                if bad.get(c, 0) >= 60:
                    continue
                if valid(key):
                    self.failures.append(fl[0])
                else:
                    bad[c] = bad.get(c, 0) + 1

    def serve(self, consts, inp, out):
        """Answer for each key read whether the property holds there."""
        limits()
        self.searching = self.serving = True
        jobs = {k: (f, kw, amp) for k, f, kw, amp in self.jobs(consts)}
        out.write("ready\n")
        out.flush()
        for line in inp:
            j = jobs.get(line.rstrip("\n"))
            out.write("ok\n" if j is not None and self.attempt(*j) == [] else "bad\n")
            out.flush()

    def fail(self, what, **data):
        self.failures.append(dict(what=what, config=clean(self.cur), **clean(data)))

    def close(self, what, got, exp, scale=None, tol=2e-4, **data):
        """got (torch) equals exp (float64 array) within tol * (1 + scale)."""
        self.checked += 1
        g = to_np(got)
        e = np.asarray(exp, dtype=np.float64)
        if g.shape != e.shape:
            self.fail(what + ": shape", got=list(g.shape), expected=list(e.shape), **data)
            return False
        sc = 1.0 if scale is None else np.asarray(scale, dtype=np.float64)
        err = np.abs(g - e)
        lim = tol * (1.0 + np.abs(sc))
        if self.searching:
            if self.rng.amp < 1.0:               # small data: small differences count
                lim = tol * (self.rng.amp + (self.rng.amp if scale is None else np.abs(sc)))
            if not np.isfinite(e).all() or not np.isfinite(lim).all() or (e.size and np.abs(e).max() > 1e30):
                return True
            # the recorded tree has to meet a tighter bound, so that rounding alone never separates the two
            lim = (5 * lim + 2e-3 * (np.abs(e).max() if e.size else 0)) / (8 if self.serving else 1)
        bad = ~(err <= lim)
        if bad.any():
            ix = tuple(int(i) for i in np.argwhere(bad)[0])
            self.fail(what, index=ix, got=float(g[ix]), expected=float(e[ix]), **data)
            return False
        return True

    def true(self, what, ok, **data):
        self.checked += 1
        if not ok:
            self.fail(what, **data)
        return bool(ok)

    def same(self, what, a, b, **data):
        self.checked += 1
        a, b = to_np(a), to_np(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
            self.fail(what, **data)

    # random material
    def t(self, *shape, lo=-1.0, hi=1.0):
        return torch.tensor(self.rng.uniform(lo, hi, shape), dtype=torch.float32)

    def randomize(self, module):
        with torch.no_grad():
            for p in module.parameters():
                p.copy_(self.t(*p.shape) if p.dim() else torch.tensor(float(self.rng.uniform(-1, 1))))

    def hint_dims(self, names, cap=6):
        """Configurations suggested by countermodels."""
        out = []
        for h in self.hints:
            d = {}
            for k, v in h.items():
                if k in names:
                    d[k] = v
            out.append(d)
        return out


SIZES = (1, 2, 3, 5, 6, 9, 12, 17, 33, 65)


def variants(kw, consts):
    """(priority, settings, data scale) around a configuration that ran."""
    ints = [c for c in consts if float(c).is_integer() and 0 < c <= 20000]
    near = sorted({int(c) + d for c in ints for d in (0, 1, -1) if int(c) + d >= 1}, key=lambda z: z)
    out = []
    for pr, vals in ((0, near), (1, SIZES)):
        for k, v in kw.items():
            if isinstance(v, bool) or v is None or isinstance(v, str):
                continue
            if isinstance(v, int):
                out += [(pr if z <= 700 or k in ("B", "W") else 4, dict(kw, **{k: z}), 1.0) for z in vals if z != v]
            elif isinstance(v, (list, tuple)) and v and all(isinstance(z, int) and not isinstance(z, bool) for z in v):
                for z in vals:
                    for q in range(len(v)):
                        if v[q] != z:
                            out.append((pr, dict(kw, **{k: type(v)(list(v[:q]) + [z] + list(v[q + 1:]))}), 1.0))
                    if len(v) < z <= 40:
                        out.append((pr, dict(kw, **{k: type(v)(list(v) + [1 + q % 2 for q in range(z - len(v))])}), 1.0))
    if near:
        both = [k for k, v in kw.items() if isinstance(v, int) and not isinstance(v, bool)]
        for z in near:
            for i, a in enumerate(both if z <= 700 else []):
                for b in both[i + 1:]:
                    out.append((2, dict(kw, **{a: z, b: z}), 1.0))
    fl = [abs(float(c)) for c in consts if c and abs(c) < 1e12]
    for k, v in kw.items():
        if isinstance(v, float):
            out += [(0, dict(kw, **{k: s * z * m}), 1.0) for z in fl for m in (1.0, 1.3, 0.7) for s in ((1, -1) if v < 0 or k == "f" else (1,))]
            out += [(1, dict(kw, **{k: z}), 1.0) for z in (0.3, 1.7, 6.0)]
    for z in fl:
        out += [(0, dict(kw), z * 3), (0, dict(kw), z * 0.3), (1, dict(kw), z ** 0.5 * 2), (1, dict(kw), z * 40)]
    out += [(1, dict(kw), z) for z in (30.0, 1e-3, 1e3)] + [(2, dict(kw), z) for z in (1e5, 1e-7, 1e7)]

    def size(d):
        r = 1
        for k, v in d.items():
            if isinstance(v, int) and not isinstance(v, bool):
                r *= max(1, abs(v))
            elif isinstance(v, (list, tuple)):
                for z in v:
                    r *= max(1, abs(z)) if isinstance(z, int) else 1
        return r
    return [o for o in out if size(o[1]) <= 200000]


def clean(d):
    r = {}
    for k, v in d.items():
        if isinstance(v, torch.Tensor):
            v = v.detach().cpu().tolist()
        elif isinstance(v, np.ndarray):
            v = v.tolist()
        r[k] = v
    return r


def to_np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().double().numpy()
    return np.asarray(x, dtype=np.float64)


# ------------------------------------------------------------------ mathematics
def nodes(n):
    if n == 1:
        return np.array([0.0])
    return -np.cos(np.pi * np.arange(n) / (n - 1))


def lag(n, L, x):
    """values of the n cardinal polynomials at x: shape x.shape + (n,)"""
    X = nodes(n) * L / 2
    x = np.asarray(x, dtype=np.float64)[..., None]
    out = []
    for j in range(n):
        r = np.ones(x.shape[:-1])
        for m in range(n):
            if m != j:
                r = r * (x[..., 0] - X[m]) / (X[j] - X[m])
        out.append(r)
    return np.stack(out, -1)


def seg_of(x, s, L):
    return np.clip(np.floor((np.asarray(x, np.float64) + L / 2) / L * s), 0, s - 1).astype(int)


def local(x, k, s, L):
    lo = k * L / s - L / 2
    return (np.asarray(x, np.float64) - lo) * s - L / 2


def phi_poly(x, n, L):
    return lag(n, L, x)


def phi_pw(x, n, s, L, disc):
    """basis values over all weights of a piecewise link: x.shape + (nb,)"""
    x = np.asarray(x, np.float64)
    nb = n * s if disc else (n - 1) * s + 1
    k = seg_of(x, s, L)
    v = lag(n, L, local(x, k, s, L))
    out = np.zeros(x.shape + (nb,))
    st = n if disc else n - 1
    it = np.ndindex(*x.shape)
    for ix in it:
        out[ix + (slice(k[ix] * st, k[ix] * st + n),)] = v[ix]
    return out


def phi_fourier(x, n, L):
    x = np.asarray(x, np.float64)
    out = [np.full(x.shape, 0.5)]
    for j in range(1, n):
        i = (j + 1) // 2
        out.append(np.cos(2 * np.pi * i * x / L) if j % 2 == 0 else np.sin(2 * np.pi * i * x / L))
    return np.stack(out[:n], -1)


def fold(x, p):
    x = np.asarray(x, np.float64)
    t = np.mod(x + p / 2, 2 * p)
    return np.where(t > p, 2 * p - t, t) - p / 2


def off_edges(x, s, L, p=None, eps=1e-3):
    """Move inputs off segment edges (rounding decides the segment exactly there)."""
    x = np.asarray(x, np.float64)
    t = (fold(x, p) if p else x)
    f = (t + L / 2) / L * s
    near = np.abs(f - np.round(f)) < eps
    return np.where(near, x + 7 * eps * L / s, x)
