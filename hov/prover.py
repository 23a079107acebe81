"""Decision procedures over hov.terms: entailment, simplification, equality proofs.

Every answer 'proved' is justified by ring normalisation, congruence, case
splitting, sum/product rules or an unsat answer of z3 (then cvc5 when asked).
'refuted' always comes with a concrete assignment on which the two sides differ.
"""
import itertools, math, random, time, os
from fractions import Fraction
import z3
import mpmath
from mpmath import mpf
mpmath.mp.dps = 50
from .terms import *
from . import terms as T

STATS = dict(z3_calls=0, z3_time=0.0, z3_unknown=0, z3_wall=0, corner=0, splits=0, merges=0)
DEFS = {}          # name -> function(args polys) -> P : defined spec symbols
SUM_RULES = []     # extra rewrite rules on sums, per monomial
PROD_RULES = []    # extra rewrite rules on products
RULES = []         # extra rewrite rules on sum atoms: f(ctx, atom) -> P or None
FACTS = {}         # app name -> function(args) -> list of B facts about the app
CORNER_RANGE = {}  # the same, valid when lo <= hi, for the corner procedure
UNIT = set()       # app names whose values lie in [0, 1)
UF_RANGE = {}      # integer app name -> function(args) -> (lo, hi): inclusive range of its values
DEADLINE = [None]


class Timeout(Exception):
    pass


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Timeout()


# ------------------------------------------------------------------ contexts
WALL = [2.5]


def z3_limits(s, ms):
    """Deterministic effort limit; the wall clock is only a backstop (a run that hits it is repeated with a longer one)."""
    s.set("rlimit", int(ms * 1500))
    s.set("timeout", int(ms * WALL[0]))


class Ctx:
    _n = 0

    def __init__(self, hyps=(), parent=None):
        self.parent = parent
        self.hyps = list(parent.hyps) if parent else []
        self.bounds = dict(parent.bounds) if parent else {}
        self.vars = set(parent.vars) if parent else set()
        self.sub = dict(parent.sub) if parent else {}
        self.cache = {}
        self.scache = {}
        self._z3 = {}
        self.noneq = list(parent.noneq) if parent else []
        Ctx._n += 1
        self.false = parent.false if parent else False
        for h in hyps:
            self._add(h)

    def extend(self, *hyps):
        return Ctx(hyps, self)

    def _add(self, h):
        if h is TRUE:
            return
        if h is FALSE:
            self.false = True
            return
        if h.kind == "and":
            for x in h.data:
                self._add(x)
            return
        if self.sub:
            h2 = subst(h, self.sub)
            if h2 is not h:
                if h2 is TRUE:
                    return
                if h2 is FALSE:
                    self.false = True
                    return
                if h2.kind == "and":
                    self._add(h2)
                    return
                h = h2
        if h in self.hyps:
            return
        self.hyps.append(h)
        self.vars |= h.free
        if h.kind in ("ge", "gt"):
            self._bound(h.data[0], h.kind == "gt")
        elif h.kind == "eq":
            self._solve(h.data[0])
        elif h.kind == "not" and h.data[0].kind == "eq":
            p = h.data[0].data[0]
            self.noneq.append(p)
        self._bump()

    def _bump(self):
        # v != lo  =>  v >= lo+1 (integers)
        changed = True
        while changed:
            changed = False
            for p in self.noneq:
                if not is_int(p):
                    continue
                for v in list(p.atoms()):
                    if v.kind != "var":
                        continue
                    lc = lin_coef(p, v)
                    if lc is None:
                        continue
                    c, rest = lc
                    if c == ONE or c == -ONE:
                        val = -rest if c == ONE else rest
                        lo, hi = self.bounds.get(v, (None, None))
                        if lo is not None and lo == val:
                            self.bounds[v] = (lo + 1, hi)
                            self.hyps.append(ge0(poly(v) - lo - 1))
                            changed = True
                        elif hi is not None and hi == val:
                            self.bounds[v] = (lo, hi - 1)
                            self.hyps.append(ge0(hi - 1 - poly(v)))
                            changed = True

    def _bound(self, p, strict):
        for v in p.atoms():
            if v.kind != "var":
                continue
            lc = lin_coef(p, v)
            if lc is None:
                continue
            c, rest = lc
            if not c.is_const():
                continue
            k = c.const()
            b = rest.scale(-1 / k)          # v >= b if k>0 else v <= b
            if v in b.free or not _indexable(b):
                continue
            if v.sort == "I" and not is_int(b):
                if b.is_const():
                    b = const(b.const().__ceil__()) if k > 0 else const(b.const().__floor__())
                else:
                    continue
            lo, hi = self.bounds.get(v, (None, None))
            if k > 0:
                if lo is None or self._tighter(b, lo, 1):
                    lo = b
            else:
                if hi is None or self._tighter(hi, b, 1):
                    hi = b
            # avoid circular bounds: v bounded by w and w bounded by v
            if self._circular(v, b):
                continue
            self.bounds[v] = (lo, hi)

    def _circular(self, v, b):
        seen, todo = set(), [x for x in b.free]
        while todo:
            w = todo.pop()
            if w is v:
                return True
            if w in seen:
                continue
            seen.add(w)
            for q in self.bounds.get(w, ()):
                if q is not None:
                    todo.extend(q.free)
        return False

    def _tighter(self, a, b, _):
        d = a - b
        if d.is_const():
            return d.const() > 0
        if b.is_const() and not a.is_const():
            return True
        return False

    def _solve(self, p):
        # p == 0: solve for a variable with unit coefficient
        cand = []
        for v in p.atoms():
            if v.kind != "var":
                continue
            lc = lin_coef(p, v)
            if lc is None:
                continue
            c, rest = lc
            if c.is_const():
                val = rest.scale(-1 / c.const())
                if v in val.free:
                    continue
                if v.sort == "I" and not is_int(val):
                    continue
                cand.append((val.is_const(), len(val.t), -v.id, v, val))
        if not cand:
            return
        cand.sort(key=lambda z: (not z[0], z[1], z[2]))
        _, _, _, v, val = cand[0]
        s = {v: val}
        self.sub = {k: subst(x, s) for k, x in self.sub.items()}
        self.sub[v] = val
        # re-add all hypotheses under the substitution
        old = self.hyps
        self.hyps = []
        self.bounds = {}
        self.noneq = []
        sub = self.sub
        for h in old:
            h2 = subst(h, sub)
            if h2 is TRUE:
                continue
            self._add(h2)

    # -------------------------------------------------------- entailment
    def entails(self, g, timeout=None):
        if self.false:
            return True
        if self.sub:
            g = subst(g, self.sub)
        if g is TRUE:
            return True
        if g is FALSE:
            return self.inconsistent()
        if g in self.hyps:
            return True
        r = self.cache.get(g)
        if r is None:
            check_deadline()
            r = self._entails(g, timeout)
            self.cache[g] = r
        return r

    def inconsistent(self):
        r = self.cache.get(FALSE)
        if r is None:
            r = self.z3_check(FALSE, False, 500) or self.z3_check(FALSE, True, 1000)
            self.cache[FALSE] = r
            if r:
                self.false = True
        return r

    def _entails(self, g, timeout):
        k = g.kind
        if k == "and":
            return all(self.entails(x) for x in g.data)
        if k == "or":
            if any(self.entails(x) for x in g.data):
                return True
        if k in ("ge", "gt"):
            STATS["corner"] += 1
            if corner(self, g.data[0], k == "gt", 8):
                return True
            q = expand_dims(g.data[0])
            if q != g.data[0] and corner(self, q, k == "gt", 8):
                return True
        if k == "not" and g.data[0].kind == "eq":
            p = g.data[0].data[0]
            if self.entails(gt0(p)) or self.entails(gt0(-p)):
                return True
        if k == "eq":
            p = g.data[0]
            if self.entails(ge0(p)) and self.entails(ge0(-p)):
                return True
        if self.z3_check(g, False, timeout or 1500):
            return True
        if self.numeric_refutes(g):
            return False
        return self.z3_check(g, True, timeout or 2500)

    def numeric_refutes(self, g):
        for env in self.samples(4):
            try:
                if not ev_b(g, env):
                    return True
            except EvalError:
                pass
        return False

    def z3_check(self, g, nonlinear, timeout):
        """True iff hyps |= g is established (unsat of negation)."""
        check_deadline()
        tr = Tr(nonlinear)
        tr.sub = self.sub
        try:
            ng = bnot(g)
            fs = [tr.b(h) for h in self.hyps]
            fs.append(tr.b(ng))
        except z3.Z3Exception:
            return False
        s = z3.Solver()
        z3_limits(s, timeout)
        s.set("random_seed", 1)
        for f in fs:
            s.add(f)
        for f in tr.side():
            s.add(f)
        if nonlinear:
            for f in self._products(tr, g):
                s.add(f)
        t = time.time()
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t
        if r == z3.unknown:
            STATS["z3_unknown"] += 1
            if time.time() - t >= timeout * WALL[0] / 1000 * 0.9:
                STATS["z3_wall"] += 1
        return r == z3.unsat

    def _products(self, tr, g):
        """Products of pairs of integer bound hypotheses: helps nonlinear goals."""
        hs = [h.data[0] for h in self.hyps if h.kind == "ge" and len(h.data[0].t) <= 4]
        hs = hs[:14]
        out = []
        for p, q in itertools.combinations_with_replacement(hs, 2):
            r = p * q
            if len(r.t) <= 8 and not any(e < 0 for m, _ in r.t for _, e in m):
                out.append(tr.p(r) >= 0)
        return out

    # ---------------------------------------------------------- sampling
    def samples(self, k, seed=0, tries=400):
        key = (k, seed)
        if key in self._z3:
            return self._z3[key]
        rnd = random.Random(seed * 7919 + 13)
        out = []
        vs = sorted(self.vars, key=lambda v: v.id)
        for t in range(tries):
            env = Env(rnd.randrange(1 << 30))
            ok = self._sample_into(env, vs, rnd)
            if not ok:
                continue
            try:
                if all(ev_b(h, env) for h in self.hyps):
                    out.append(env)
                    if len(out) >= k:
                        break
            except EvalError:
                continue
        if not out and tries > 50:
            env = self.z3_model(rnd)
            if env is not None:
                out.append(env)
        self._z3[key] = out
        return out

    def _sample_into(self, env, vs, rnd):
        done = env.vals
        for v in vs:
            if v in self.sub:
                continue
            if v not in done:
                if not self._sample_var(env, v, rnd, set()):
                    return False
        for v, e in self.sub.items():
            for w in e.free:
                if w not in done and not self._sample_var(env, w, rnd, set()):
                    return False
            try:
                done[v] = ev(e, env)
            except EvalError:
                return False
        return True

    def _sample_var(self, env, v, rnd, active):
        if v in env.vals:
            return True
        if v in active:
            return False
        active = active | {v}
        lo, hi = self.bounds.get(v, (None, None))
        for b in (lo, hi):
            if b is not None:
                for w in b.free:
                    if not self._sample_var(env, w, rnd, active):
                        return False
        try:
            l = ev(lo, env) if lo is not None else None
            h = ev(hi, env) if hi is not None else None
        except EvalError:
            return False
        if v.sort == "I":
            if l is None and h is None:
                l, h = -3, 4
            elif l is None:
                l = h - 4
            elif h is None:
                h = l + 3
            l, h = math.ceil(_key(l)), math.floor(_key(h))
            if l > h:
                return False
            env.vals[v] = Fraction(rnd.choice([l, h]) if rnd.random() < .3 else rnd.randint(l, h))
        else:
            if l is None and h is None:
                env.vals[v] = Fraction(rnd.randint(-24, 24), rnd.choice([1, 2, 3, 8]))
            else:
                l = h - 4 if l is None else l
                h = l + 4 if h is None else h
                l, h = _key(l), _key(h)
                env.vals[v] = Fraction(l) + (Fraction(h) - Fraction(l)) * Fraction(rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]), 8)
        return True

    def z3_model(self, rnd):
        tr = Tr(True)
        tr.sub = self.sub
        s = z3.Solver()
        z3_limits(s, 1500)
        for h in self.hyps:
            s.add(tr.b(h))
        for f in tr.side():
            s.add(f)
        t = time.time()
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t
        if r != z3.sat:
            return None
        m = s.model()
        env = Env(rnd.randrange(1 << 30))
        for v in self.vars:
            x = tr.vars.get(v)
            if x is None:
                continue
            val = m.eval(x, model_completion=True)
            try:
                env.vals[v] = Fraction(val.as_fraction()) if v.sort == "R" else Fraction(val.as_long())
            except Exception:
                return None
        for v, e in self.sub.items():
            try:
                env.vals[v] = ev(e, env)
            except Exception:
                return None
        try:
            if all(ev_b(h, env) for h in self.hyps):
                return env
        except EvalError:
            pass
        return None


def _indexable(b):
    return all(a.kind in ("var", "dim") and e > 0 for m, _ in b.t for a, e in m)


def lin_coef(p, v):
    """(c, rest) with p = c*v + rest, v not in c/rest; None if not linear."""
    c, r = {}, {}
    for m, k in p.t:
        e = 0
        for a, x in m:
            if a is v:
                e = x
            elif v in a.free:
                return None
        if e == 0:
            r[m] = k
        elif e == 1:
            c[tuple((a, x) for a, x in m if a is not v)] = k
        else:
            return None
    return from_dict(c), from_dict(r)


# --------------------------------------------------------- corner procedure
def clear_den(ctx, p, depth):
    """Multiply by positive denominators. Returns p' with same sign or None."""
    for _ in range(6):
        den = None
        for m, _c in p.t:
            for a, e in m:
                if e < 0:
                    den = (a, -e)
                    break
                if a.kind == "inv" and e > 0:
                    den = (a, e)
                    break
            if den:
                break
        if not den:
            return p
        a, e = den
        if a.kind == "inv":
            q = a.data[0]
            if ctx_pos(ctx, q, depth):
                pass
            elif ctx_pos(ctx, -q, depth):
                q = -q
                if e % 2:
                    # inv(q0) with q0 negative: multiply by -q0>0
                    pass
            else:
                return None
            # p * (|q0|)^e ; inv(q0)*q0 = 1
            sign = 1 if q == a.data[0] else -1
            d = ZERO
            for m, c in p.t:
                k = dict(m).get(a, 0)
                rest = tuple((x, y) for x, y in m if x is not a)
                t = of_mono(rest, c)
                for _i in range(e - k):
                    t = t * q
                if k % 2 and sign < 0:
                    t = -t
                if e - k < 0:
                    return None
                d = d + t
            p = d
        else:
            if not ctx_pos(ctx, poly(a), depth):
                if e % 2 == 0:
                    pass
                else:
                    return None
            p = p * power(poly(a), e)
    return p


def ctx_pos(ctx, q, depth):
    if depth <= 0:
        return False
    g = gt0(q)
    if g is TRUE or g in ctx.hyps:
        return True
    if g is FALSE:
        return False
    r = ctx.cache.get(g)
    if r is not None:
        return r
    a = q.single_atom()
    if a is not None and a.kind in ("var", "dim", "app") and depth > 1:
        r = corner(ctx, q, True, depth - 2)
        if not r:
            r = ctx.entails(g) if a.kind != "app" else False
        return r
    return corner(ctx, q, True, depth - 2)


def corner(ctx, p, strict, depth):
    """Sufficient test for p >= 0 (or > 0)."""
    if p.is_const():
        return p.const() > 0 if strict else p.const() >= 0
    if depth <= 0:
        return False
    h = (gt0(p) if strict else ge0(p))
    if h in ctx.hyps or h is TRUE:
        return True
    key = ("corner", p, strict)
    if key in ctx.cache:
        return ctx.cache[key]
    ctx.cache[key] = False
    r = _corner(ctx, p, strict, depth)
    ctx.cache[key] = r
    return r


def _corner(ctx, p, strict, depth):
    q = clear_den(ctx, p, depth)
    if q is None:
        return False
    if q != p:
        if any(e < 0 or a.kind == "inv" for m, _ in q.t for a, e in m):
            return False
        return corner(ctx, q, strict, depth - 1)
    if is_int(p) and strict:
        p = p - 1
        strict = False
        if p.is_const():
            return p.const() >= 0
    # sign directly visible: all terms non-negative monomials
    cand = []
    for a in p.atoms():
        if a.kind == "var" and a in ctx.bounds:
            cand.append(a)
    # prefer variables not used in bounds of other candidates
    def rank(a):
        used = 0
        for b in cand:
            if b is a:
                continue
            for q_ in ctx.bounds[b]:
                if q_ is not None and a in q_.free:
                    used += 1
        return (used, a.id)
    cand.sort(key=rank)
    for a in cand:
        lc = lin_coef(p, a)
        if lc is None:
            continue
        c, rest = lc
        lo, hi = ctx.bounds[a]
        if lo is not None and lo.is_const() and hi is None:
            continue          # dimension: handled by shifting
        if lo is not None and corner(ctx, c, False, depth - 1):
            return corner(ctx, rest + c * lo, strict, depth - 1)
        if hi is not None and corner(ctx, -c, False, depth - 1):
            return corner(ctx, rest + c * hi, strict, depth - 1)
    # integer atoms with natural bounds
    for a in sorted(p.atoms(), key=lambda z: z.id):
        if a.kind == "floor":
            lc = lin_coef(p, a)
            if lc is None:
                continue
            c, rest = lc
            r = a.data[0]
            if corner(ctx, c, False, depth - 1):
                # floor(r) >= 0 if r >= 0 ; else floor(r) > r-1
                if corner(ctx, r, False, depth - 1) and corner(ctx, rest, strict, depth - 1):
                    return True
                return corner(ctx, rest + c * (r - 1), strict, depth - 1)
            if corner(ctx, -c, False, depth - 1):
                return corner(ctx, rest + c * r, strict, depth - 1)
        if a.kind == "app" and a.data[0] in CORNER_RANGE:
            lc = lin_coef(p, a)
            if lc is None:
                continue
            c, rest = lc
            lo, hi = CORNER_RANGE[a.data[0]](a.data[1:])
            if not corner(ctx, hi - lo, False, depth - 1):
                continue
            if corner(ctx, c, False, depth - 1):
                return corner(ctx, rest + c * lo, strict, depth - 1)
            if corner(ctx, -c, False, depth - 1):
                return corner(ctx, rest + c * hi, strict, depth - 1)
        if a.kind == "app" and a.data[0] == "@cos":
            lc = lin_coef(p, a)
            if lc is None:
                continue
            c, rest = lc
            A = pi_multiple(a.data[1])
            for sg, bnd in ((c, -1), (-c, 1)):
                if corner(ctx, sg, False, depth - 1):
                    q = rest + c * bnd
                    if strict and A is not None and corner(ctx, sg, True, depth - 1) and \
                            any(corner(ctx, z, zs, depth - 1) and corner(ctx, 1 - z, 1 - zs, depth - 1) for z in (A, -A) for zs in ((False,) if bnd == -1 else (True,))):
                        return corner(ctx, q, False, depth - 1)
                    return corner(ctx, q, strict, depth - 1)
        if a.kind == "ite":
            lc = lin_coef(p, a)
            if lc is None:
                continue
            c, rest = lc
            cnd, x, y = a.data
            c1 = ctx.extend(cnd)
            c2 = ctx.extend(bnot(cnd))
            return (corner(c1, rest + c * x, strict, depth - 2) or c1.inconsistent_quick()) and \
                   (corner(c2, rest + c * y, strict, depth - 2) or c2.inconsistent_quick())
    # shift dimensions by their constant lower bound
    s = {}
    for a in p.atoms():
        if a.kind == "var":
            lo, hi = ctx.bounds.get(a, (None, None))
            if lo is None or not lo.is_const():
                # strictly positive reals given as hypotheses
                if gt0(poly(a)) in ctx.hyps or ge0(poly(a)) in ctx.hyps:
                    continue
                return False
            if lo.const() > 0:
                s[a] = poly(a) + lo
            elif lo.const() < 0:
                return False
        elif a.kind == "dim":
            s[a] = poly(a) + 1 if True else None
        elif a.kind == "app" and (ge0(poly(a)) in ctx.hyps or gt0(poly(a)) in ctx.hyps):
            continue
        else:
            if a.kind == "app" and a.data[0] in ("@exp",):
                continue
            if any(x is a and e % 2 for m, _ in p.t for x, e in m):
                return False
    memo = s

    def fa(a):
        return memo.get(a)
    q = map_poly(p, fa) if s else p
    ok = all(c >= 0 for _, c in q.t)
    if not ok:
        return False
    if not strict:
        return True
    if dict(q.t).get((), 0) > 0:
        return True
    # strict: need one monomial of strictly positive atoms
    for m, c in q.t:
        if c > 0 and all(_strict_pos(ctx, a, s) for a, _ in m):
            return True
    return False


def pi_multiple(x):
    """x / pi when pi divides x, else None."""
    q = ZERO
    for m, c in x.t:
        if not any(a.kind == "app" and a.data == ("pi",) and e == 1 for a, e in m):
            return None
        q = q + of_mono(tuple(z for z in m if not (z[0].kind == "app" and z[0].data == ("pi",))), c)
    return q


def _strict_pos(ctx, a, shifted):
    if a in shifted:
        return False
    if a.kind == "app" and a.data[0] == "@exp":
        return True
    return gt0(poly(a)) in ctx.hyps or (a.kind == "var" and ctx.bounds.get(a, (None,))[0] is not None
                                         and ctx.bounds[a][0].is_const() and ctx.bounds[a][0].const() > 0)


def _inconsistent_quick(self):
    if self.false:
        return True
    return self.z3_check(FALSE, False, 300)


Ctx.inconsistent_quick = _inconsistent_quick


# ------------------------------------------------------------------ z3 translation
class Tr:
    def __init__(self, nonlinear):
        self.nl = nonlinear
        self.sub = {}
        self.vars = {}
        self.sides = []
        self.memo = {}
        self.bm = {}
        self._pending = []

    def side(self):
        return self.sides

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.kind
        mk = z3.Int if a.sort == "I" else z3.Real
        if k == "var":
            r = mk(f"v{a.id}")
            self.vars[a] = r
        elif k == "ite":
            c, p, q = a.data
            x, y = self.p(p), self.p(q)
            if a.sort == "R":
                x, y = _real(x), _real(y)
            else:
                x, y = _int(x), _int(y)
            r = z3.If(self.b(c), x, y)
        elif k == "floor":
            r = z3.Int(f"f{a.id}")
            self.memo[a] = r
            arg = self.p(a.data[0])
            self.sides.append(z3.ToReal(r) <= _real(arg))
            self.sides.append(_real(arg) < z3.ToReal(r) + 1)
            return r
        elif k == "dim":
            r = z3.Int(f"d{a.id}")
            self.memo[a] = r
            self.sides.append(r == self.p(a.data[0]))
            return r
        elif k == "inv":
            r = z3.Real(f"i{a.id}")
            self.memo[a] = r
            if self.nl:
                self.sides.append(r * _real(self.p(a.data[0])) == 1)
            return r
        elif k == "app":
            name = a.data[0]
            args = a.data[1:]
            if not args:
                r = mk(name)
                if name == "pi":
                    self.sides.append(r > z3.RealVal("3.1415926"))
                    self.sides.append(r < z3.RealVal("3.1415927"))
            else:
                zs = []
                for x in args:
                    zs.append(_real(self.p(x)))
                f = z3.Function("u_" + name, *([z3.RealSort()] * len(zs)),
                                z3.IntSort() if a.sort == "I" else z3.RealSort())
                r = f(*zs)
                self.memo[a] = r
                self._axioms(name, r, zs)
                if name in ("@cos", "@sin"):
                    self._trig(name, r, args[0])
                if name in FACTS:
                    for fct in FACTS[name](args):
                        self.sides.append(self.b(subst(fct, self.sub)))
                if name in UF_RANGE:
                    lo, hi = UF_RANGE[name](args)
                    self.sides.append(r >= self.p(subst(lo, self.sub)))
                    self.sides.append(r <= self.p(subst(hi, self.sub)))
        else:
            r = mk(f"q{a.id}")
            self.memo[a] = r
            self._binder_facts(a, r)
        self.memo[a] = r
        return r

    def _trig(self, name, r, x):
        """Sign of cos/sin(pi * N / D) in the quadrant given by N and D."""
        q = []
        neg = {}
        for m, c in x.t:
            d = dict(m)
            pa = [a for a in d if a.kind == "app" and a.data == ("pi",)]
            if len(pa) != 1 or d[pa[0]] != 1:
                return
            q.append((tuple(z for z in m if z[0] is not pa[0]), c))
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
                if a.kind == "inv":
                    return
        den = of_mono(tuple(sorted(neg.items(), key=lambda z: z[0].id))) if neg else ONE
        num_ = ZERO
        for m, c in q:
            num_ = num_ + of_mono(m, c) * den
        if not q:
            return
        N, D = _real(self.p(num_)), _real(self.p(den))
        if name == "@cos":
            self.sides.append(z3.Implies(z3.And(D > 0, 2 * N <= D, -2 * N <= D), r >= 0))
            self.sides.append(z3.Implies(z3.And(D > 0, 2 * N < D, -2 * N < D), r > 0))
            self.sides.append(z3.Implies(z3.And(D > 0, N < D, -N < D), r > -1))
            self.sides.append(z3.Implies(z3.And(D > 0, N > 0, N <= D), r < 1))
        else:
            self.sides.append(z3.Implies(z3.And(D > 0, N >= 0, N <= D), r >= 0))
            self.sides.append(z3.Implies(z3.And(D > 0, N > 0, N < D), r > 0))

    def _binder_facts(self, a, r):
        """Order facts of sums, products, maxima and minima (their range is never negative)."""
        n, body = a.data[1], a.data[2]
        sg = sign_term(body)
        if a.kind in ("max", "min"):
            if sg is not None:
                self.sides.append(z3.Implies(self.p(n) >= 1, r > 0 if sg == "pos" else r >= 0))
            o = self.memo.get(("mm", n, body))
            if o is None:
                self.memo[("mm", n, body)] = (a.kind, r)
            elif o[0] != a.kind:
                hi, lo = (r, o[1]) if a.kind == "max" else (o[1], r)
                self.sides.append(z3.Implies(self.p(n) >= 1, hi >= lo))
        elif a.kind == "sum":
            if sg is not None:
                self.sides.append(r >= 0)
                if sg == "pos":
                    self.sides.append(z3.Implies(self.p(n) >= 1, r > 0))
        elif a.kind == "prod":
            if sg is not None:
                self.sides.append(r > 0 if sg == "pos" else r >= 0)

    def _axioms(self, name, r, zs):
        if name in ("@cos", "@sin", "@tanh"):
            self.sides.append(r <= 1)
            self.sides.append(r >= -1)
        elif name == "@exp":
            self.sides.append(r > 0)
            self.sides.append(r >= zs[0] + 1)
        elif name == "@sqrt":
            self.sides.append(z3.Implies(zs[0] >= 0, r >= 0))
            if self.nl:
                self.sides.append(z3.Implies(zs[0] >= 0, r * r == zs[0]))
        elif name == "@sigmoid":
            self.sides.append(r > 0)
            self.sides.append(r < 1)

    def mono(self, m):
        pos = [(a, e) for a, e in m if e > 0]
        neg = [(a, -e) for a, e in m if e < 0]
        if not self.nl and (len(m) > 1 or neg or (pos and pos[0][1] > 1)):
            key = ("m", m)
            r = self.memo.get(key)
            if r is None:
                isint = all(a.sort == "I" and e > 0 for a, e in m)
                nm = "m" + "_".join(f"{a.id}.{e}" for a, e in m)
                r = z3.Int(nm) if isint else z3.Real(nm)
                self.memo[key] = r
                # the ite-atom may be the only nonlinear factor: distribute
                for a, e in m:
                    if a.kind == "ite" and e == 1:
                        rest = tuple((x, y) for x, y in m if x is not a)
                        c, p, q = a.data
                        xx = self.p(p * of_mono(rest))
                        yy = self.p(q * of_mono(rest))
                        self.sides.append(r == z3.If(self.b(c), _real(xx), _real(yy)) if not isint
                                          else z3.ToReal(r) == z3.If(self.b(c), _real(xx), _real(yy)))
                        break
            return r
        r = None
        for a, e in pos:
            x = self.atom(a)
            for _ in range(e):
                r = x if r is None else _mul(r, x)
        for a, e in neg:
            key = ("neg", a)
            x = self.memo.get(key)
            if x is None:
                x = z3.Real(f"n{a.id}")
                self.memo[key] = x
                self.sides.append(x * _real(self.atom(a)) == 1)
            for _ in range(e):
                r = x if r is None else _mul(r, x)
        return r

    def p(self, p):
        r = None
        for m, c in p.t:
            if m == ():
                t = z3.IntVal(c.numerator) if c.denominator == 1 else z3.RealVal(str(c))
            else:
                t = self.mono(m)
                if c != 1:
                    if c.denominator == 1:
                        t = t * int(c)
                    else:
                        t = _real(t) * z3.RealVal(str(c))
            r = t if r is None else _add(r, t)
        return z3.IntVal(0) if r is None else r

    def b(self, b):
        r = self.bm.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == "true":
            r = z3.BoolVal(True)
        elif k == "false":
            r = z3.BoolVal(False)
        elif k == "ge":
            r = self.p(b.data[0]) >= 0
        elif k == "gt":
            r = self.p(b.data[0]) > 0
        elif k == "eq":
            r = self.p(b.data[0]) == 0
        elif k == "and":
            r = z3.And(*[self.b(x) for x in b.data])
        elif k == "or":
            r = z3.Or(*[self.b(x) for x in b.data])
        elif k == "not":
            r = z3.Not(self.b(b.data[0]))
        elif k == "bapp":
            zs = [_real(self.p(x)) for x in b.data[1:]]
            f = z3.Function("b_" + b.data[0], *([z3.RealSort()] * len(zs)), z3.BoolSort())
            r = f(*zs) if zs else z3.Bool("b_" + b.data[0])
        self.bm[b] = r
        return r


def sign_atom(a):
    if a.kind == "app":
        if a.data[0] in ("@exp", "@sigmoid", "pi"):
            return "pos"
        if a.data[0] == "@sqrt":
            return "nn"
    if a.kind == "inv":
        s = sign_term(a.data[0])
        return "pos" if s == "pos" else None
    if a.kind == "ite":
        c, p, q = a.data
        x, y = sign_term(p), sign_term(q)
        if x and y:
            return "pos" if x == y == "pos" else "nn"
        if c.kind in ("ge", "gt"):
            t = c.data[0]
            if p == t and (q == -t or y):
                return "nn"
            if p == -t and x is None and c.kind == "ge" and q == t and False:
                return "nn"
    if a.kind in ("sum", "prod", "max", "min"):
        s = sign_term(a.data[2])
        if s is None:
            return None
        return s if a.kind == "prod" else "nn" if a.kind == "sum" else None
    return None


def sign_term(p):
    """"pos" / "nn" when p is positive / nonnegative by its shape alone, else None."""
    if not p.t:
        return "nn"
    res = "nn"
    for m, c in p.t:
        if c < 0:
            return None
        s = "pos"
        for a, e in m:
            if e % 2 == 0 and e > 0:
                t = "nn"
                if sign_atom(a) == "pos":
                    t = "pos"
            elif e > 0:
                t = sign_atom(a)
                if t is None:
                    return None
            else:
                return None
            if t == "nn":
                s = "nn"
        if s == "pos":
            res = "pos"
    return res


def _real(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def _int(x):
    return x


def _mul(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a * b
    return _real(a) * _real(b)


def _add(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a + b
    return _real(a) + _real(b)


# ------------------------------------------------------------------ evaluation
class EvalError(Exception):
    pass


class Env:
    def __init__(self, seed=0):
        self.seed = seed
        self.vals = {}
        self.memo = {}
        self.tables = {}

    def uf(self, name, args, sort):
        args = tuple(_key(a) for a in args)
        key = (name, args)
        v = self.tables.get(key)
        if v is None:
            h = hash((self.seed, name, tuple((a.numerator, a.denominator) if isinstance(a, Fraction) else a for a in args)))
            r = random.Random(h)
            v = Fraction(r.randint(0, 31), 32) if name in UNIT else Fraction(r.randint(-3, 4)) if sort == "I" else Fraction(r.randint(-32, 32), 8)
            self.tables[key] = v
        return v

    def child(self, v, x):
        e = Env(self.seed)
        e.vals = dict(self.vals)
        e.vals[v] = x
        e.tables = self.tables
        return e


def mp_(x):
    """Rational or high-precision real as a high-precision real (50 digits)."""
    if isinstance(x, Fraction):
        return mpf(x.numerator) / x.denominator
    return x if isinstance(x, mpf) else mpf(x)


def _key(a):
    return a if isinstance(a, Fraction) else Fraction(int(mpmath.nint(mp_(a) * 10 ** 20)), 10 ** 20)


def nadd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return mp_(a) + mp_(b)


def nmul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    if isinstance(a, Fraction) and not a or isinstance(b, Fraction) and not b:
        return Fraction(0)
    return mp_(a) * mp_(b)


def ndiv(a, b):
    if b == 0 or not isinstance(b, Fraction) and abs(b) < 1e-30:
        raise EvalError("division by zero")
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a / b
    return mp_(a) / mp_(b)


def ev(p, env):
    r = Fraction(0)
    for m, c in p.t:
        t = c
        for a, e in m:
            x = ev_a(a, env)
            if e < 0:
                for _ in range(-e):
                    t = ndiv(t, x)
            else:
                for _ in range(e):
                    t = nmul(t, x)
        r = nadd(r, t)
    return r


def ev_a(a, env):
    if a.kind == "var":
        v = env.vals.get(a)
        if v is None:
            if len(a.data) > 1:
                raise EvalError("loose bound var")
            r = random.Random(hash((env.seed, a.data[0])))
            v = Fraction(r.randint(1, 4)) if a.sort == "I" else Fraction(r.randint(-32, 32), 8)
            env.vals[a] = v
        return v
    m = env.memo.get(a)
    if m is not None:
        return m
    v = _ev_a(a, env)
    env.memo[a] = v
    return v


EVAL_SPECIAL = {}


def _ev_a(a, env):
    k = a.kind
    if k == "app":
        name = a.data[0]
        if name == "pi":
            return mpmath.pi + mpf(0)
        if name == "div0":
            raise EvalError("1/0")
        if name.startswith("@"):
            x = ev(a.data[1], env)
            try:
                x = mp_(x)
                if abs(x) > 10 ** 6:
                    raise EvalError("large argument")
                if name == "@sigmoid":
                    return 1 / (1 + mpmath.exp(-x))
                r = getattr(mpmath, name[1:])(x)
                if not isinstance(r, mpf):
                    raise EvalError(name)
                return r
            except (ValueError, OverflowError, ZeroDivisionError):
                raise EvalError(name)
        if name in EVAL_SPECIAL:
            return EVAL_SPECIAL[name](*[ev(x, env) for x in a.data[1:]])
        if name in DEFS:
            return ev(DEFS[name](*a.data[1:]), env)
        if name in UF_RANGE:
            lo, hi = UF_RANGE[name](a.data[1:])
            lo, hi = ev(lo, env), ev(hi, env)
            if lo > hi:
                raise EvalError("empty range")
            t = env.uf(name, tuple(ev(x, env) for x in a.data[1:]), "I")
            return lo + Fraction(int(t + 3) % int(hi - lo + 1))
        return env.uf(name, tuple(ev(x, env) for x in a.data[1:]), a.sort)
    if k == "ite":
        return ev(a.data[1], env) if ev_b(a.data[0], env) else ev(a.data[2], env)
    if k == "floor":
        x = ev(a.data[0], env)
        if not isinstance(x, Fraction):
            if abs(x - mpmath.nint(x)) < 1e-20:
                return Fraction(int(mpmath.nint(x)))
            return Fraction(int(mpmath.floor(x)))
        return Fraction(math.floor(x))
    if k == "inv":
        x = ev(a.data[0], env)
        return ndiv(Fraction(1), x)
    if k == "dim":
        return ev(a.data[0], env)
    if k in BINDERS:
        bv, n, body = a.data
        nn = ev(n, env)
        nn = int(nn)
        if nn > 60:
            raise EvalError("big range")
        vals = [ev(body, env.child(bv, Fraction(i))) for i in range(nn)]
        if k == "sum":
            r = Fraction(0)
            for x in vals:
                r = nadd(r, x)
            return r
        if k == "prod":
            r = Fraction(1)
            for x in vals:
                r = nmul(r, x)
            return r
        if not vals:
            raise EvalError("empty max")
        if not all(isinstance(x, Fraction) for x in vals):
            vals = [mp_(x) for x in vals]
        return max(vals) if k == "max" else min(vals)
    raise EvalError(k)


def ev_b(b, env):
    k = b.kind
    if k == "true":
        return True
    if k == "false":
        return False
    if k in ("ge", "gt", "eq"):
        x = ev(b.data[0], env)
        if not isinstance(x, Fraction) and abs(x) < 1e-25:
            x = 0
        return x >= 0 if k == "ge" else x > 0 if k == "gt" else x == 0
    if k == "and":
        return all(ev_b(x, env) for x in b.data)
    if k == "or":
        return any(ev_b(x, env) for x in b.data)
    if k == "not":
        return not ev_b(b.data[0], env)
    if k == "bapp":
        args = tuple(ev(x, env) for x in b.data[1:])
        key = ("b", b.data[0], args)
        v = env.tables.get(key)
        if v is None:
            args = tuple(_key(a) for a in args)
            v = random.Random(hash((env.seed, b.data[0], tuple((a.numerator, a.denominator) if isinstance(a, Fraction) else a for a in args)))).random() < .5
            env.tables[key] = v
        return v
    raise EvalError(k)


# ------------------------------------------------------------------ simplifier
def open_canon(ctx, a):
    bv, n, body = a.data
    used = ctx.vars | body.free | n.free
    j = 1
    while True:
        v = mk_atom("var", (f"k@{j}",), "I")
        if v not in used and v not in ctx.sub:
            break
        j += 1
    return v, n, subst(body, {bv: poly(v)})


def under(ctx, v, n):
    return ctx.extend(ge0(poly(v)), ge0(n - 1 - poly(v)))


def simp(ctx, x):
    """Simplify P or B under ctx."""
    if ctx.sub:
        x = subst(x, ctx.sub)
    for _ in range(4):
        y = _simp(ctx, x)
        if y == x if isinstance(x, P) else y is x:
            return y
        x = y
    return x


def _simp(ctx, x):
    memo = ctx.scache

    def fa(a):
        if a.kind == "var":
            return None
        r = memo.get(a)
        if r is None:
            check_deadline()
            r = simp_atom(ctx, a, fp, fb)
            memo[a] = r
        return r

    def fp(p):
        p = map_poly(p, fa)
        if any(a.kind == "inv" for m, _ in p.t for a, _e in m):
            p = cancel_inv(ctx, p)
        return p

    def fb(b):
        if b.kind in ("ge", "gt", "eq"):
            b2 = map_b(b, fp, fb)
            if b2 in (TRUE, FALSE):
                return b2
            key = ("bs", b2)
            r = ctx.cache.get(key)
            if r is None and b2.kind == "eq":
                z = cos_inj(ctx, b2.data[0])
                if z is None:
                    z = cos_inj1(ctx, b2.data[0])
                if z is not None:
                    r = fb(z)
                    ctx.cache[key] = r
            if r is None:
                if ctx.entails(b2):
                    r = TRUE
                elif ctx.entails(bnot(b2)):
                    r = FALSE
                else:
                    r = b2
                ctx.cache[key] = r
            return r
        b2 = map_b(b, fp, fb)
        if b2.kind in ("bapp", "not"):
            if b2 in ctx.hyps:
                return TRUE
            if bnot(b2) in ctx.hyps:
                return FALSE
        return b2

    return fp(x) if isinstance(x, P) else fb(x)


def presimp(ctx, x):
    """Bottom-up pass that only evaluates floor atoms (index arithmetic) in ctx, memoised
    over the whole term; does not enter binders."""
    memo = ctx.__dict__.setdefault("pcache", {}) if hasattr(ctx, "__dict__") else ctx.pcache

    def fa(a):
        if a.kind == "var" or a.kind in BINDERS:
            return None
        r = memo.get(a)
        if r is None:
            check_deadline()
            if a.kind == "floor":
                f = floor(fp(a.data[0]))
                out = f
                for b in list(f.atoms()):
                    if b.kind == "floor" and all(z.kind == "var" for z in all_atoms(b.data[0]) if z is not b):
                        z = floor_value(ctx, b)
                        if z is not None:
                            out = map_poly(out, lambda t, b=b, z=z: z if t is b else None)
                r = out
            elif a.kind == "ite":
                r = ite(fb(a.data[0]), fp(a.data[1]), fp(a.data[2]))
            else:
                r = map_children(a, fp, fb)
            memo[a] = r
        return r

    def fp(p):
        r = memo.get(p)
        if r is None:
            r = memo[p] = map_poly(p, fa)
        return r

    def fb(b):
        r = memo.get(b)
        if r is None:
            r = memo[b] = map_b(b, fp, fb)
        return r
    return fp(x) if isinstance(x, P) else fb(x)


def simp_atom(ctx, a, fp, fb):
    k = a.kind
    if k == "ite":
        r = presimp(ctx, poly(a))
        if r.single_atom() is not a:
            return fp(r)
    if k == "ite":
        c = fb(a.data[0])
        if c is TRUE:
            return fp(a.data[1])
        if c is FALSE:
            return fp(a.data[2])
        # branches under their condition
        c1, c2 = ctx.extend(c), ctx.extend(bnot(c))
        if c1.false:
            return fp(a.data[2])
        if c2.false:
            return fp(a.data[1])
        p = _simp(c1, subst(a.data[1], {}))
        q = _simp(c2, a.data[2])
        if p == q:
            return p
        # equality condition: v == e  makes branches comparable
        if c.kind == "eq" and c1.sub:
            if subst(q, c1.sub) == subst(p, c1.sub):
                return q
        if c.kind == "not" and c2.sub:
            if subst(q, c2.sub) == subst(p, c2.sub):
                return p
        return shared_cond(c, p, q)
    if k == "floor":
        r = fp(a.data[0])
        f = floor(r)
        s = f.atoms()
        out = f
        for b in list(s):
            if b.kind == "floor" and (poly(b) == f or True):
                z = floor_value(ctx, b)
                if z is None:
                    z = floor_sign(ctx, b)
                if z is not None:
                    out = map_poly(out, lambda t, b=b, z=z: z if t is b else None)
        return out
    if k in BINDERS:
        bv, n, body = a.data
        n2 = fp(n)
        if n2.is_const() and n2.const() <= 6 or n2 != n:
            v = fresh("b")
            t = binder(k, v, n2, subst(body, {bv: poly(v)}))
            if t.single_atom() is not a:
                return t
        if ctx.entails(eq(n2, 1)):
            return fp(subst(body, {bv: ZERO}))
        v, n2, body2 = open_canon(ctx, a)
        n2 = fp(n2)
        c2 = under(ctx, v, n2)
        body3 = _simp(c2, body2)
        if k == "sum":
            r = sum_rules(ctx, c2, v, n2, body3)
            if r is not None:
                return r
        if k == "prod":
            r = prod_rules(ctx, c2, v, n2, body3)
            if r is not None:
                return r
        if k in ("max", "min"):
            r = maxmin_rules(ctx, c2, v, n2, body3, k)
            if r is not None:
                return r
        t = binder(k, v, n2, body3)
        if k == "sum":
            ta = t.single_atom()
            if ta is not None:
                for rule in RULES:
                    r = rule(ctx, ta)
                    if r is not None:
                        return r
        return t
    return map_children(a, fp, fb)


def _conj(c):
    """Conjuncts of c as (atom condition, sign)."""
    if c.kind == "and":
        return [z for x in c.data for z in _conj(x)]
    if c.kind == "not":
        x = c.data[0]
        if x.kind == "or":
            return [z for y in x.data for z in _conj(bnot(y))]
        return [(x, False)] if x.kind != "and" else [(c, True)]
    return [(c, True)]


def shared_cond(c, p, q):
    """ite(a and b, p, .. ite(not a, r, s) ..): decide the shared condition a first."""
    for x, y, neg in ((p, q, False), (q, p, True)):
        ls = _conj(bnot(c) if neg else c)
        if len(ls) < 2:
            continue
        other = {z for a in y.atoms() if a.kind == "ite" for b in (a.data[0], bnot(a.data[0])) for z, _ in _conj(b)}
        for l, pos in ls:
            if l in other:
                rest = [(z if sg else bnot(z)) for z, sg in ls if z is not l]
                inner = ite(band(*rest), x, cond_assume(y, l, pos))
                outer = cond_assume(y, l, not pos)
                return ite(l, inner, outer) if pos else ite(l, outer, inner)
    return ite(c, p, q)


def floor_sign(ctx, a):
    """floor(-N/t) = -floor((N-1)/t) - 1 for integers N and t >= 1: canonical sign of the numerator."""
    r = a.data[0]
    den = None
    for m, c in r.t:
        neg = [z for z, e in m if e < 0]
        if len(neg) != 1 or neg[0].sort != "I" or (den is not None and neg[0] is not den):
            return None
        den = neg[0]
    if den is None:
        return None
    t = poly(den)
    N = r * t
    if not is_int(N):
        return None
    # structural choice (never by creation order): the sign of the rounded term if there is one, else of the first name
    ms = sorted((0 if any(z.kind in ("floor", "dim") for z, _ in m) else 1, str(from_dict({m: 1})), c) for m, c in N.t if m)
    if not ms or ms[0][2] > 0 or not ctx.entails(gt0(t)):
        return None
    return -floor(div(-N - 1, t)) - 1


def mono_sign(ctx, m, c):
    """1 / -1 / None: sign of a monomial (weak)."""
    s = 1 if c > 0 else -1
    for a, e in m:
        if e % 2 == 0:
            continue
        t = sign_atom(a)
        if t in ("pos", "nn") and not (e < 0 and t == "nn"):
            continue
        q = a.data[0] if a.kind == "inv" else poly(a)
        if a.kind == "inv" or e < 0:
            if ctx.entails(gt0(q)):
                continue
            if ctx.entails(gt0(-q)):
                s = -s
                continue
            return None
        if ctx.entails(ge0(q)):
            continue
        if ctx.entails(ge0(-q)):
            s = -s
            continue
        return None
    return s


def poly_sign(ctx, p):
    ss = set()
    for m, c in p.t:
        s = mono_sign(ctx, m, c)
        if s is None:
            ss = None
            break
        ss.add(s)
    if ss is not None and len(ss) == 1:
        return ss.pop()
    if ss == set():
        return 1
    if ctx.entails(ge0(p)):
        return 1
    if ctx.entails(ge0(-p)):
        return -1
    return None


def maxmin_rules(ctx, c2, v, n, body, k):
    """Maximum / minimum over v < n (n >= 1) of a body affine in v, or with terms free of v."""
    if not ctx.entails(ge0(n - 1)):
        return None
    lc = lin_coef(body, v)
    if lc is not None and v not in lc[0].free and v not in lc[1].free:
        s = poly_sign(ctx, lc[0])
        if s is not None:
            at = n - 1 if (s > 0) == (k == "max") else ZERO
            return simp(ctx, lc[0] * at + lc[1])
    free, rest = ZERO, ZERO
    for m, c in body.t:
        t = of_mono(m, c)
        if v in t.free:
            rest = rest + t
        else:
            free = free + t
    if free.t and rest.t:
        return free + simp(ctx, binder(k, v, n, rest))
    # common factor free of v
    if len(body.t) == 1:
        (m, c), = body.t
        out = tuple(z for z in m if v not in z[0].free)
        inn = tuple(z for z in m if v in z[0].free)
        if (out or c != 1) and inn:
            s = mono_sign(ctx, out, c)
            if s is not None:
                kk = k if s > 0 else ("min" if k == "max" else "max")
                return of_mono(out, c) * simp(ctx, binder(kk, v, n, of_mono(inn)))
    return None


def floor_value(ctx, a):
    """Try to evaluate floor atom: returns P or None."""
    r = a.data[0]
    key = ("fv", a)
    if key in ctx.cache:
        return ctx.cache[key]
    res = None
    if ctx.entails_fast(ge0(r)) and ctx.entails_fast(gt0(1 - r)):
        res = ZERO
    elif ctx.entails_fast(ge0(-r)) and ctx.entails_fast(gt0(1 + r)):
        if ctx.entails_fast(gt0(-r)):
            res = const(-1)
    if res is None:
        # exact fractional integers: r * d integer combos  floor(c/d) with numeric small values
        pass
    ctx.cache[key] = res
    return res


def _entails_fast(self, g):
    """Corner procedure and linear z3 only."""
    if self.false or g is TRUE:
        return True
    if g is FALSE:
        return False
    if self.sub:
        g = subst(g, self.sub)
        if g is TRUE:
            return True
        if g is FALSE:
            return False
    if g in self.hyps:
        return True
    r = self.cache.get(g)
    if r is not None:
        return r
    k = ("fast", g)
    r = self.cache.get(k)
    if r is None:
        if g.kind in ("ge", "gt"):
            r = corner(self, g.data[0], g.kind == "gt", 8)
            if not r:
                q = expand_dims(g.data[0])
                r = q != g.data[0] and corner(self, q, g.kind == "gt", 8)
            if not r and not self.numeric_refutes(g):
                r = self.z3_check(g, False, 500)
                if not r:
                    d = clear_den(self, expand_dims(g.data[0]), 6)
                    if d is not None:
                        r = self.z3_check(ge0(d) if g.kind == "ge" else gt0(d), True, 1000)
        else:
            r = self.entails(g)
        self.cache[k] = r
    return r


Ctx.entails_fast = _entails_fast


def sum_rules(ctx, c2, v, n, body):
    """Rules for sum over v<n of body (opened). None if nothing applies."""
    # radix split: floor(v * M^-1) in body and n divisible by M
    f = find_radix(v, body)
    if f is not None:
        M = f
        q = div(n, M)
        if is_int(q) and len(q.t) == 1:
            a, b = fresh("hi"), fresh("lo")
            body2 = subst(body, {v: poly(a) * M + poly(b)})
            ca = under(ctx, a, q)
            cb = under(ca, b, M)
            body2 = simp(cb, body2)
            return simp(ctx, binder("sum", a, q, binder("sum", b, M, body2)))
    out = ZERO
    hit = False
    for m, c in body.t:
        t = of_mono(m, c)
        r = None
        for f in SUM_RULES:
            r = f(ctx, c2, v, n, m, c)
            if r is not None:
                break
        for a, e in m if r is None else ():
            if a.kind == "ite" and e == 1 and v not in a.data[0].free and v in a.free and _delta_of_outer(a.data[0]):
                # condition j == e on an outer summation index: pull it out of the inner sum
                rest = tuple((x, y) for x, y in m if x is not a)
                cnd, p, q = a.data
                r = ite(cnd, binder("sum", v, n, p * of_mono(rest, c)), binder("sum", v, n, q * of_mono(rest, c)))
                break
            if a.kind == "ite" and e == 1 and v in a.data[0].free:
                rest = tuple((x, y) for x, y in m if x is not a)
                cnd, p, q = a.data
                r = ite_sum(ctx, c2, v, n, cnd, p * of_mono(rest, c), q * of_mono(rest, c))
                if r is not None:
                    break
        if r is None:
            r = swap_in(ctx, c2, v, n, m, c)
        if r is None:
            out = out + binder("sum", v, n, t)
        else:
            hit = True
            out = out + r
    return out if hit else None


def _guards(p, v):
    """Some ite of a monomial of p (not below a binder) guards v linearly."""
    return any(a.kind == "ite" and e == 1 and v in a.data[0].free and a.data[2] == ZERO
               for m, _ in p.t for a, e in m)


def swap_in(ctx, c2, v, n, m, c):
    """sum_v sum_w b = sum_w sum_v b when b guards v: the guarded sum goes innermost, where its range shrinks."""
    for a, e in m:
        if a.kind != "sum" or e != 1 or v not in a.free or v in a.data[1].free:
            continue
        w, k, b = open_canon(c2, a)
        chain, seen = [(w, k)], c2
        while True:
            seen = under(seen, w, k)
            if _guards(b, v):
                break
            x = b.single_atom()
            if x is None or x.kind != "sum" or v in x.data[1].free or v not in x.free:
                chain = None
                break
            w, k, b = open_canon(seen, x)
            chain.append((w, k))
        if not chain:
            continue
        cx = ctx
        for w, k in chain:
            cx = under(cx, w, k)
        rest = of_mono(tuple((x, y) for x, y in m if x is not a), c)
        out = ZERO
        for mm, cc in (b * rest).t:
            r = None
            for x, y in mm:
                if x.kind == "ite" and y == 1 and v in x.data[0].free and x.data[2] == ZERO:
                    o = tuple((z, q) for z, q in mm if z is not x)
                    r = ite_sum(cx, under(cx, v, n), v, n, x.data[0], x.data[1] * of_mono(o, cc), ZERO)
                    if r is not None:
                        break
            if r is None:
                out = None
                break
            out = out + r
        if out is None:
            continue
        for w, k in reversed(chain):
            out = binder("sum", w, k, out)
        return out
    return None


def _delta_of_outer(c):
    if c.kind != "eq":
        return False
    for w in c.free:
        if w.data[0].startswith("k@"):
            lc = lin_coef(c.data[0], w)
            if lc is not None and lc[0] in (ONE, -ONE):
                return True
    return False


def cancel_inv(ctx, p):
    """inv(q)*(q*r) -> r where q != 0 is known."""
    for a in sorted([a for a in p.atoms() if a.kind == "inv"], key=lambda z: z.id):
        q = a.data[0]
        d, rest = {}, {}
        for m, c in p.t:
            e = dict(m).get(a, 0)
            if e > 0:
                d[tuple((x, y - 1 if x is a else y) for x, y in m if not (x is a and y == 1))] = c
            else:
                rest[m] = c
        num_ = from_dict(d)
        if len(num_.t) < len(q.t):
            continue
        r = poly_div(num_, q)
        if r is not None and ctx.entails(bnot(eq0(q))):
            return cancel_inv(ctx, from_dict(rest) + r)
        r, rem = poly_part(num_, q)
        if r.t and ctx.entails(bnot(eq0(q))):
            return cancel_inv(ctx, from_dict(rest) + r + rem * poly(a))
    return p


def poly_part(p, q):
    """p = r*q + rem where every monomial of r*q occurs in p: the multiples of q that are written out in p."""
    r = ZERO
    mq, cq = max(q.t, key=lambda z: (sum(e for _, e in z[0]), len(z[0]), str(of_mono(z[0]))))
    dq = dict(mq)
    d = dict(p.t)
    for m, c in p.t:
        if m not in d:
            continue
        dm = dict(m)
        if any(dm.get(a, 0) < e for a, e in dq.items()):
            continue
        quo = tuple((a, e - dq.get(a, 0)) for a, e in m if e != dq.get(a, 0))
        t = of_mono(quo, c / cq)
        tq = t * q
        if all(d.get(x) == y for x, y in tq.t):
            r = r + t
            for x, _ in tq.t:
                del d[x]
    return r, from_dict(d)


def _lead(p):
    return max(p.t, key=lambda z: (sum(e for _, e in z[0]), [(a.id, e) for a, e in z[0]]))


def poly_div(p, q):
    """p / q when q divides p exactly, else None."""
    mq, cq = _lead(q)
    dq = dict(mq)
    r = ZERO
    for _ in range(60):
        if not p.t:
            return r
        # a term of p divisible by the leading monomial of q
        m, c = _lead(p)
        dm = dict(m)
        quo = dict(dm)
        for a, e in dq.items():
            quo[a] = quo.get(a, 0) - e
        if any(quo.get(a, 0) < 0 and dm.get(a, 0) >= 0 for a in dq):
            return None
        t = of_mono(tuple(sorted(((a, e) for a, e in quo.items() if e), key=lambda z: z[0].id)), c / cq)
        p2 = p - t * q
        if _lead_key(p2) is not None and _lead_key(p2) >= _lead_key(p):
            return None
        p = p2
        r = r + t
    return None


def _lead_key(p):
    if not p.t:
        return None
    m, _ = _lead(p)
    return (sum(e for _, e in m), [(a.id, e) for a, e in m])


def cos_inj(ctx, p):
    """c*(cos A - cos B) == 0 with c != 0 and A, B in [0, pi]: A == B (cos is injective on [0, pi])."""
    if len(p.t) != 2:
        return None
    (m1, c1), (m2, c2) = p.t
    if c1 != -c2:
        return None
    x1 = [a for a, e in m1 if e == 1 and a.kind == "app" and a.data[0] in ("@cos", "node")]
    x2 = [a for a, e in m2 if e == 1 and a.kind == "app" and a.data[0] in ("@cos", "node")]
    if len(x1) != 1 or len(x2) != 1 or x1[0].data[0] != x2[0].data[0]:
        # cos A - const  with const = +-1
        return None
    r1 = tuple(z for z in m1 if z[0] is not x1[0])
    r2 = tuple(z for z in m2 if z[0] is not x2[0])
    if r1 != r2:
        return None
    for a, e in r1:
        if not ctx.entails(bnot(eq0(poly(a)))):
            return None
    if x1[0].data[0] == "node":
        n1, k1 = x1[0].data[1:]
        n2, k2 = x2[0].data[1:]
        if n1 != n2 or not ctx.entails(ge0(n1 - 2)):
            return None
        ok = band(ge0(k1), ge0(n1 - 1 - k1), ge0(k2), ge0(n1 - 1 - k2))
        return eq(k1, k2) if ctx.entails(ok) else None
    A, Bq = _arc(ctx, x1[0]), _arc(ctx, x2[0])
    if A is None or Bq is None:
        return None
    d = clear_all(A - Bq)
    return eq0(d if d is not None else A - Bq)


def _arc(ctx, a):
    """A/pi for the atom cos(+-A) with A known to lie in [0, pi]."""
    A = div(a.data[1], PI)
    for z in (A, -A):
        if ctx.entails_fast(ge0(z)) and ctx.entails_fast(ge0(1 - z)):
            return z
    return None


def cos_inj1(ctx, p):
    """c*(cos A) + const == 0 handled for the end points: cos A = 1 iff A = 0, cos A = -1 iff A = pi (A in [0, pi])."""
    if len(p.t) != 2:
        return None
    for (m1, c1), (m2, c2) in ((p.t[0], p.t[1]), (p.t[1], p.t[0])):
        x1 = [a for a, e in m1 if e == 1 and a.kind == "app" and a.data[0] == "@cos"]
        if len(x1) != 1:
            continue
        r1 = tuple(z for z in m1 if z[0] is not x1[0])
        if r1 != m2 or abs(c1) != abs(c2):
            continue
        for a, e in r1:
            if not ctx.entails(bnot(eq0(poly(a)))):
                return None
        A = _arc(ctx, x1[0])
        if A is None:
            return None
        t = A if c1 == -c2 else 1 - A          # cos A = 1  /  cos A = -1
        d = clear_all(t)
        return eq0(d if d is not None else t)
    return None


def find_radix(v, body):
    for a in all_atoms(body, into_binders=True):
        if a.kind == "floor" and v in a.free:
            r = a.data[0]
            for m, c in r.t:
                d = dict(m)
                if d.get(v) == 1 and c == 1:
                    neg = tuple((x, -e) for x, e in m if x is not v)
                    if neg and all(e > 0 and x.sort == "I" for x, e in neg):
                        return of_mono(neg)
    return None


def ite_sum(ctx, c2, v, n, cnd, p, q):
    """sum_v ite(cnd, p, q) for delta and interval conditions."""
    if cnd.kind == "eq":
        lc = lin_coef(cnd.data[0], v)
        if lc is not None and lc[0] in (ONE, -ONE):
            e = -lc[1] if lc[0] == ONE else lc[1]
            base = binder("sum", v, n, q)
            d = subst(p, {v: e}) - subst(q, {v: e})
            inr = band(ge0(e), ge0(n - 1 - e))
            return simp(ctx, base + ite(simp(ctx, inr), d, ZERO))
        return None
    if q != ZERO:
        if p == ZERO:
            return None
        return None
    # interval: conj of ge conditions linear in v with unit coefficient
    cs = cnd.data if cnd.kind == "and" else (cnd,)
    lo, hi, others = [], [], []
    for c in cs:
        if c.kind == "ge" and v in c.free:
            lc = lin_coef(c.data[0], v)
            if lc is None:
                return None
            if lc[0] == ONE:
                lo.append(-lc[1])
            elif lc[0] == -ONE:
                hi.append(lc[1])
            else:
                return None
        elif v in c.free:
            return None
        else:
            others.append(c)
    # effective range [a, b] within [0, n-1]
    a = _pick(ctx, lo + [ZERO], True)
    b = _pick(ctx, hi + [n - 1], False)
    if a is None or b is None:
        return None
    m = b - a + 1
    w = fresh("w")
    body = subst(p, {v: poly(w) + a})
    r = binder("sum", w, dim(m) if False else m, body)
    if not ctx.entails(ge0(m)):
        r = ite(ge0(m), r, ZERO)
    if others:
        r = ite(band(*others), r, ZERO)
    return simp(ctx, r)


def _pick(ctx, xs, want_max):
    for x in xs:
        if all(ctx.entails((ge0(x - y) if want_max else ge0(y - x))) for y in xs if y is not x):
            return x
    return None


def prod_rules(ctx, c2, v, n, body):
    for f in PROD_RULES:
        r = f(ctx, c2, v, n, body)
        if r is not None:
            return r
    return None


# ------------------------------------------------------------------ equality
class Result:
    def __init__(self, status, info=None, env=None):
        self.status, self.info, self.env = status, info, env

    def __bool__(self):
        return self.status == "proved"

    def __repr__(self):
        return f"<{self.status} {self.info or ''}>"


PROVED = Result("proved")


def close(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    a, b = mp_(a), mp_(b)
    return abs(a - b) <= mpf(10) ** -18 * (1 + abs(a) + abs(b))


def refute(ctx, a, b, k=6, seed=0):
    for env in ctx.samples(k, seed):
        try:
            x, y = ev(a, env), ev(b, env)
        except EvalError:
            continue
        if not close(x, y):
            return env, x, y
    return None


def prove_eq(ctx, a, b, depth=10):
    check_deadline()
    a, b = poly(a), poly(b)
    if a == b or ctx.false:
        return PROVED
    d = presimp(ctx, a - b)
    if nested_cond(d) is not None:
        d1 = try_simp(ctx, d, 2.0)
        if d1 is not None:
            d = d1
        else:
            r = refute(ctx, a, b)
            if r is not None:
                return Result("refuted", f"lhs={float(r[1]):.6g} rhs={float(r[2]):.6g}", r[0])
            leaves = presplit(ctx, d)
            if len(leaves) != 1 or leaves[0][1] != d:
                for c1, d1 in leaves:
                    r = prove_eq(c1, d1, ZERO, depth - 1)
                    if r.status != "proved":
                        return r
                return PROVED
            d = simp(ctx, d)
    else:
        d = simp(ctx, d)
    if not d.t:
        return PROVED
    if d.is_const() and not ctx.inconsistent():
        r = refute(ctx, a, b)
        if r:
            return Result("refuted", f"difference {d}", r[0])
    r = refute(ctx, a, b)
    if r is not None:
        return Result("refuted", f"lhs={float(r[1]):.6g} rhs={float(r[2]):.6g}", r[0])
    if depth <= 0:
        return Result("unknown", f"depth; residual {d}")
    # merge provably equal atoms
    d2 = merge_atoms(ctx, d, depth)
    if not d2.t:
        return PROVED
    if peel(ctx, d2, depth):
        STATS["peels"] = STATS.get("peels", 0) + 1
        return PROVED
    d3 = split_extrema(ctx, d2)
    if d3 is not None and prove_eq(ctx, d3, ZERO, depth - 2):
        STATS["extrema"] = STATS.get("extrema", 0) + 1
        return PROVED
    for d3 in align(ctx, d2):
        if prove_eq(ctx, d3, ZERO, depth - 2):
            STATS["aligned"] = STATS.get("aligned", 0) + 1
            return PROVED
    ats = all_atoms(d2)
    if any(x.kind == "floor" for x in ats) and not any(x.kind == "app" for x in ats):
        if homogeneous(ctx, eq0(d2)):
            return PROVED
    # case split on a condition that does not depend on bound variables
    c = find_cond(ctx, d2)
    if c is not None:
        STATS["splits"] += 1
        res = []
        for cc in (c, bnot(c)):
            c1 = ctx.extend(cc)
            if c1.false or c1.inconsistent():
                continue
            c1, d3 = pinch(c1, cc, d2)
            r = prove_eq(c1, d3, ZERO, depth - 1)
            if r.status != "proved":
                return r
        return PROVED
    # unfold definitions
    if any(x.kind == "app" and x.data[0] in DEFS for x in all_atoms(d2)):
        kinds = {x.kind for x in all_atoms(d2)}
        d3 = unfold(d2)
        if d3 != d2 and ("prod" in kinds or any(x.kind == "app" and x.data[0] == "Fold" for x in all_atoms(d2)) or not any(x.kind in BINDERS for x in all_atoms(d2)) or any(x.kind == "app" and x.data[0] == "@cos" for x in all_atoms(d2))):
            return prove_eq(ctx, d3, ZERO, depth - 1)
    if ctx.entails(eq0(d2)):
        return PROVED
    d3 = expand_dims(d2)
    if d3 != d2:
        d3 = simp(ctx, d3)
        if not d3.t or ctx.entails(eq0(d3)):
            return PROVED
    # clear denominators (all divisions carry a separate non-zero obligation)
    d4 = clear_all(d3)
    if d4 is not None and d4 != d3:
        d4 = simp(ctx, d4)
        if not d4.t or ctx.entails(eq0(d4)):
            return PROVED
        d2 = d4
    return Result("unknown", f"residual {str(d2)[:600]}")


def pinch(ctx, cc, d):
    """Hypothesis h >= 0 just added where h <= 0 is known: use h = 0."""
    if cc.kind != "ge":
        return ctx, d
    h = cc.data[0]
    if len(h.t) > 4 or not is_int(h) or not ctx.entails(ge0(-h), 300):
        return ctx, d
    for v in h.atoms():
        if v.kind == "app" and v.sort == "I":
            lc = lin_coef(h, v)
            if lc is not None and lc[0] in (ONE, -ONE) and v not in all_atoms(lc[1], into_binders=True):
                val = -lc[1] if lc[0] == ONE else lc[1]
                return ctx, replace_deep(d, v, val)
    return ctx.extend(eq0(h)), d


def replace_deep(x, at, val):
    memo = {}

    def fa(a):
        if a is at:
            return val
        if a.kind == "var":
            return None
        r = memo.get(a)
        if r is None:
            r = memo[a] = map_children(a, fp, fb)
        return r

    def fp(p):
        r = memo.get(p)
        if r is None:
            r = memo[p] = map_poly(p, fa)
        return r

    def fb(b):
        r = memo.get(b)
        if r is None:
            r = memo[b] = map_b(b, fp, fb)
        return r
    return fp(x)


def try_simp(ctx, d, secs):
    """simp with its own small time budget; None when it runs out."""
    dl = DEADLINE[0]
    t = time.time() + secs
    if dl is not None and dl <= t:
        return simp(ctx, d)
    DEADLINE[0] = t
    try:
        return simp(ctx, d)
    except Timeout:
        return None
    finally:
        DEADLINE[0] = dl


def cond_assume(x, c, val):
    """Replace condition c (and its negation) by its truth value everywhere in x."""
    nc = bnot(c)
    memo = {}

    def fa(a):
        if a.kind == "var":
            return None
        r = memo.get(a)
        if r is None:
            if a.kind == "ite":
                r = ite(fb(a.data[0]), fp(a.data[1]), fp(a.data[2]))
            else:
                r = map_children(a, fp, fb)
            memo[a] = r
        return r

    def fp(p):
        r = memo.get(p)
        if r is None:
            r = memo[p] = map_poly(p, fa)
        return r

    def fb(b):
        if b is c:
            return TRUE if val else FALSE
        if b is nc:
            return FALSE if val else TRUE
        r = memo.get(b)
        if r is None:
            r = memo[b] = map_b(b, fp, fb)
        return r
    return fp(x)


def nested_cond(d):
    """An innermost condition of an ite that sits inside another condition; it mentions no bound variable."""
    best = None
    seen = set()
    for a in all_atoms(d, into_binders=True):
        if a.kind != "ite":
            continue
        for b in all_atoms(a.data[0], into_binders=True):
            if b.kind != "ite":
                continue
            for c in leaf_conds(b.data[0]):
                if c in seen:
                    continue
                seen.add(c)
                if any(len(v.data) > 1 for v in c.free) or any(z.kind == "ite" for z in all_atoms(c, into_binders=True)):
                    continue
                key = (cond_size(c), c.id)
                if best is None or key < best[0]:
                    best = (key, c)
    return best[1] if best else None


def presplit(ctx, d, depth=12):
    """Case split on innermost nested conditions before simplification: list of (ctx, d)."""
    check_deadline()
    c = nested_cond(d) if depth > 0 else None
    if c is None:
        return [(ctx, d)]
    out = []
    for cc, val in ((c, True), (bnot(c), False)):
        if ctx.entails_fast(bnot(cc)) if cc.kind in ("ge", "gt", "eq") else False:
            continue
        c1 = ctx.extend(cc)
        if c1.false or c1.inconsistent():
            continue
        STATS["splits"] += 1
        out += presplit(c1, presimp(c1, cond_assume(d, c, val)), depth - 1)
    return out


def clear_all(d):
    """Multiply by all denominators (their non-vanishing is a separate obligation)."""
    for _ in range(12):
        den = None
        for m, _c in d.t:
            for a, e in m:
                if e < 0:
                    den = (a, -e, None)
                elif a.kind == "inv":
                    den = (a, e, a.data[0])
                if den:
                    break
            if den:
                break
        if not den:
            return d
        a, e, q = den
        if q is None:
            d = d * power(poly(a), e)
        else:
            e = max(dict(m).get(a, 0) for m, _ in d.t)
            r = ZERO
            for m, c in d.t:
                k = dict(m).get(a, 0)
                rest = of_mono(tuple((x, y) for x, y in m if x is not a), c)
                r = r + rest * power(q, e - k)
            d = r
    return None


def unfold(p, names=None):
    def rule(a):
        if a.kind == "app" and a.data[0] in DEFS and (names is None or a.data[0] in names):
            return unfold(DEFS[a.data[0]](*a.data[1:]), names)
        return None
    return rewrite(p, rule)


def find_cond(ctx, d):
    """A boolean atom from an ite whose free variables are all outside binders."""
    best = None
    known = set()
    for a in all_atoms(d, into_binders=True):
        if a.kind == "ite":
            for c in leaf_conds(a.data[0]):
                if any(len(v.data) > 1 for v in c.free):
                    continue          # depends on a bound variable
                if ctx.entails(c) or ctx.entails(bnot(c)):
                    continue
                key = (cond_size(c), c.id)
                if best is None or key < best[0]:
                    best = (key, c)
    return best[1] if best else None


def cond_size(c):
    return len(all_atoms(c))


def prove_split(ctx, b, depth=4):
    """Boolean goal by case splits on the conditions of its ite atoms."""
    b = simp(ctx, b)
    if b is TRUE or ctx.false:
        return True
    if b is FALSE:
        return ctx.inconsistent()
    if depth <= 0 or not any(a.kind == "ite" for a in all_atoms(b)):
        return ctx.entails(b)
    c = find_cond(ctx, b)
    if c is None:
        return ctx.entails(b)
    for cc in (c, bnot(c)):
        c1 = ctx.extend(cc)
        if c1.false or c1.inconsistent():
            continue
        if not prove_split(c1, b, depth - 1):
            return False
    return True


def leaf_conds(c):
    if c.kind in ("and", "or"):
        for x in c.data:
            yield from leaf_conds(x)
    elif c.kind == "not":
        yield from leaf_conds(c.data[0])
    elif c.kind not in ("true", "false"):
        yield c


def merge_atoms(ctx, d, depth):
    """Unify provably equal atoms of d."""
    tried = set()
    progress = True
    while progress:
        progress = False
        ats = sorted([a for a in d.atoms() if a.kind not in ("var",)], key=lambda z: z.id)
        groups = {}
        for a in ats:
            key = (a.kind, a.data[0]) if a.kind == "app" else (a.kind,)
            groups.setdefault(key, []).append(a)
        for key, g in groups.items():
            for a, b in itertools.combinations(g, 2):
                if (a, b) in tried:
                    continue
                tried.add((a, b))
                if refute(ctx, poly(a), poly(b), 4) is not None:
                    continue
                if atom_eq(ctx, a, b, depth - 1):
                    STATS["merges"] += 1
                    d = map_poly(d, lambda t, a=a, b=b: poly(a) if t is b else None)
                    progress = True
                    break
            if progress:
                break
        if not d.t:
            return d
    return d


def flat_sum(ctx, a):
    """Flatten nested sums: list of (v, n), body and the context below.
    Factors in front of an inner sum are moved inside it."""
    bs = []
    c = ctx
    rest = ONE
    while True:
        v, n, body = open_canon(c, a)
        bs.append((v, n))
        c = under(c, v, n)
        body = simp(c, body * rest)
        rest = ONE
        if len(body.t) == 1:
            m, k = body.t[0]
            inner = [x for x, e in m if x.kind == "sum" and e == 1]
            if inner:
                a = inner[0]
                rest = of_mono(tuple(z for z in m if z[0] is not a), k)
                continue
        return bs, body, c


def sum_chain(ctx, a, limit=6):
    """A sum atom as a chain of binders and guards: [("v", v, n) | ("g", cond)], body, context.
    Multiplicative factors are moved inwards; ite(c, X, 0) becomes a guard."""
    out = []
    c = ctx
    v, n, body = open_canon(c, a)
    out.append(("v", v, n))
    c = under(c, v, n)
    while len(out) < limit:
        body = simp(c, body)
        if len(body.t) != 1:
            break
        m, k = body.t[0]
        nxt = None
        for x, e in m:
            if e == 1 and x.kind == "sum":
                nxt = x
                break
            if e == 1 and x.kind == "ite" and x.data[2] == ZERO and any(z.kind == "sum" for z in x.data[1].atoms()):
                nxt = x
                break
            if e == 1 and x.kind == "ite":
                y = ite_of_sums(c, x)
                if y is not None:
                    nxt = x
                    break
        if nxt is None:
            break
        rest = of_mono(tuple(z for z in m if z[0] is not nxt), k)
        if nxt.kind == "ite" and nxt.data[2] != ZERO:
            v, n, b2 = ite_of_sums(c, nxt)
            out.append(("v", v, n))
            c = under(c, v, n)
            body = b2 * rest
            continue
        if nxt.kind == "sum":
            v, n, b2 = open_canon(c, nxt)
            if v in rest.free:
                break
            out.append(("v", v, n))
            c = under(c, v, n)
            body = b2 * rest
        else:
            out.append(("g", nxt.data[0]))
            c = c.extend(nxt.data[0])
            body = nxt.data[1] * rest
    return out, body


def ite_of_sums(ctx, x):
    """ite(c, k1*sum_n P, k2*sum_n Q) as one sum: (v, n, ite(c, k1*P, k2*Q)), or None."""
    parts = []
    for b in x.data[1:]:
        if len(b.t) != 1:
            return None
        m, k = b.t[0]
        ss = [z for z, e in m if z.kind == "sum" and e == 1]
        if len(ss) != 1:
            return None
        v, n, body = open_canon(ctx, ss[0])
        parts.append((v, n, body * of_mono(tuple(z for z in m if z[0] is not ss[0]), k)))
    (v, n, p), (v2, n2, q) = parts
    if n != n2:
        return None
    return v, n, ite(x.data[0], p, subst_raw(q, {v2: poly(v)}))


def peel_choices(ctx, a):
    """Ways to write sum atom a as  sum over w<n of body(w):  (n, v, body)."""
    ch, body = sum_chain(ctx, a)
    res = []
    for i, e in enumerate(ch):
        if e[0] != "v":
            continue
        bound = {x[1] for x in ch[:i] if x[0] == "v"}
        if any(b in e[2].free for b in bound):
            continue
        b = body
        for x in reversed(ch[:i] + ch[i + 1:]):
            b = binder("sum", x[1], x[2], b) if x[0] == "v" else ite(x[1], b, ZERO)
        res.append((e[2], e[1], b))
    return res


def peel(ctx, d, depth):
    """d is a combination of sums: pull one common summation index out of all of them and
    prove that the summands cancel index by index."""
    ms = []
    for m, c in d.t:
        ss = [x for x, e in m if x.kind == "sum" and e == 1]
        if len(ss) != 1:
            return False
        ms.append((ss[0], of_mono(tuple(z for z in m if z[0] is not ss[0]), c)))
    if not 2 <= len(ms) <= 6:
        return False
    ch = [peel_choices(ctx, s) for s, _ in ms]
    w = fresh("pl")
    for n0, v0, b0 in ch[0]:
        opts = [[b for n, v, b in [(n, v, subst_raw(b, {v: poly(w)})) for n, v, b in c] if n == n0 or ctx.entails(eq(n, n0))] for c in ch[1:]]
        if any(not o for o in opts):
            continue
        c1 = under(ctx, w, n0)
        first = subst_raw(b0, {v0: poly(w)}) * ms[0][1]
        for pick in itertools.islice(itertools.product(*opts), 16):
            g = first
            for b, (s, f) in zip(pick, ms[1:]):
                g = g + b * f
            if refute(c1, g, ZERO, 5) is not None:
                continue
            if prove_eq(c1, g, ZERO, depth - 1):
                return True
    return False


def split_extrema(ctx, d):
    """max_v max(p, q) = max(max_v p, max_v q), for the extrema of d whose body is a pointwise extremum; None if there are none."""
    hit = []

    def rule(t):
        if t.kind not in ("max", "min"):
            return None
        v, n, body = open_canon(ctx, t)
        a = body.single_atom()
        if a is None or a.kind != "ite" or a.data[0].kind != "ge":
            return None
        g, p, q = a.data[0].data[0], a.data[1], a.data[2]
        r = poly_div(p - q, g) if g.t else None
        if r is None or not r.is_const() or not r.t:
            return None
        if (r.const() > 0) != (t.kind == "max"):
            return None
        hit.append(t)
        P, Q = simp(ctx, binder(t.kind, v, n, p)), simp(ctx, binder(t.kind, v, n, q))
        return ite(ge0(P - Q), P, Q) if t.kind == "max" else ite(ge0(P - Q), Q, P)
    r = rewrite(d, rule) if any(a.kind in ("max", "min") for a in all_atoms(d)) else d
    return r if hit else None


def align(ctx, d):
    """Sums (products) of d whose lengths differ by a small constant: split the longer ones into their first
    (or last) terms and a rest of the common length."""
    ats = sorted([a for a in d.atoms() if a.kind in ("sum", "prod")], key=lambda z: z.id)
    if not 2 <= len(ats) <= 6:
        return
    lens = {a: open_canon(ctx, a)[1] for a in ats}
    base = None
    for a, b in itertools.permutations(ats, 2):
        k = lens[a] - lens[b]
        if k.is_const() and 1 <= k.const() <= 3:
            if base is None or (lens[b] - base).is_const() and (lens[b] - base).const() < 0:
                base = lens[b]
    if base is None or base.is_const() or not ctx.entails(ge0(base)):
        return
    for last in (False, True):
        def rule(t):
            if t not in lens:
                return None
            k = lens[t] - base
            if not k.is_const() or not 1 <= k.const() <= 3:
                return None
            k = int(k.const())
            v, n, body = open_canon(ctx, t)
            if last:
                r = binder(t.kind, v, base, body)
                ends = [subst(body, {v: base + j}) for j in range(k)]
            else:
                r = binder(t.kind, v, base, subst(body, {v: poly(v) + k}))
                ends = [subst(body, {v: const(j)}) for j in range(k)]
            for e in ends:
                r = r + e if t.kind == "sum" else r * e
            return r
        yield map_poly(d, rule)


def atom_eq(ctx, a, b, depth):
    if a is b:
        return True
    if depth <= 0:
        return False
    k = a.kind
    if k == "app":
        if len(a.data) != len(b.data):
            return False
        return all(prove_eq(ctx, x, y, depth).status == "proved" for x, y in zip(a.data[1:], b.data[1:]))
    if k in ("inv", "dim"):
        return bool(prove_eq(ctx, a.data[0], b.data[0], depth))
    if k == "floor":
        if prove_eq(ctx, a.data[0], b.data[0], depth):
            return True
        return ctx.entails(eq(poly(a), poly(b)))
    if k == "ite":
        if ctx.entails(eq(poly(a), poly(b))):
            return True
        return False
    if k == "sum":
        bs1, body1, c1 = flat_sum(ctx, a)
        bs2, body2, c2 = flat_sum(ctx, b)
        if len(bs1) != len(bs2):
            return False
        if len(bs1) > 7:
            return False
        for perm in itertools.permutations(range(len(bs1))):
            if not all(bs1[i][1] == bs2[j][1] or ctx.entails(eq(bs1[i][1], bs2[j][1])) for i, j in enumerate(perm)):
                continue
            # rename second's variables to first's simultaneously
            ren = {bs2[j][0]: poly(bs1[i][0]) for i, j in enumerate(perm)}
            t2 = subst_raw(body2, ren)
            if refute(c1, body1, t2, 4) is not None:
                continue
            if prove_eq(c1, body1, t2, depth):
                return True
        return False
    if k in ("prod", "max", "min"):
        v, n1, body1 = open_canon(ctx, a)
        bv, n2, body2 = b.data
        if not (n1 == n2 or ctx.entails(eq(n1, n2))):
            return False
        body2 = subst(body2, {bv: poly(v)})
        c = under(ctx, v, n1)
        return bool(prove_eq(c, body1, body2, depth))
    return False


def scale_out(ctx, g):
    """Homogeneity: with p > 0 substitute u := p*t for the other reals and divide by p.
    Returns an equivalent (context, goal) that no longer mentions p, or None."""
    free = set(g.free)
    reals = [v for v in free if v.sort == "R"]
    for p in reals:
        if not (gt0(poly(p)) in ctx.hyps) or len(reals) < 2:
            continue
        s = {}
        for u in reals:
            if u is not p:
                s[u] = poly(p) * poly(mk_atom("var", ("t~" + u.data[0],), "R"))

        def strip(b):
            k = b.kind
            if k in ("ge", "gt", "eq"):
                q = b.data[0]
                c, prim = content_split(q)
                # divide by the positive powers of p only
                e = dict(c.t[0][0]).get(p, 0)
                q = q * of_mono(((p, -e),)) if e else q
                return {"ge": ge0, "gt": gt0, "eq": eq0}[k](q)
            if k in ("and", "or", "not"):
                return map_b(b, lambda x: x, strip)
            return b
        g2 = strip(ite_strip(subst(g, s), p))
        if p in g2.free:
            continue
        hs = []
        for h in ctx.hyps:
            h2 = strip(ite_strip(subst(h, s), p))
            if p not in h2.free and not (h2.free & set(s)):
                hs.append(h2)
        return Ctx(hs), g2
    return None


def frac_elim(ctx, g):
    """Real u inside floor(c*u + d): write c*u + d = f + r with f integer, 0 <= r < 1."""
    hs = list(ctx.hyps)
    for _ in range(6):
        hit = None
        for a in sorted(set().union(*[all_atoms(x) for x in [g] + hs]), key=lambda z: z.id):
            if a.kind != "floor":
                continue
            for v in a.data[0].free:
                if v.sort == "R" and not v.data[0].startswith("fr~"):
                    lc = lin_coef(a.data[0], v)
                    if lc and lc[0].is_const() and lc[1].is_const():
                        hit = (v, lc[0].const(), lc[1])
                        break
            if hit:
                break
        if hit is None:
            break
        v, c, d = hit
        f = poly(mk_atom("var", ("fl~" + v.data[0],), "I"))
        r = poly(mk_atom("var", ("fr~" + v.data[0],), "R"))
        s = {v: (f + r - d).scale(1 / c)}
        hs = [subst(h, s) for h in hs] + [ge0(r), gt0(1 - r)]
        g = subst(g, s)
    fl = sorted([v for v in g.free if v.data[0].startswith("fl~")], key=lambda z: z.id)
    if len(fl) > 1:
        # only differences matter: fl_i = fl_0 + d_i
        s = {v: poly(fl[0]) + poly(mk_atom("var", ("d" + v.data[0],), "I")) for v in fl[1:]}
        hs = [subst(h, s) for h in hs]
        g = subst(g, s)
    return Ctx(hs), g


def homogeneous(ctx, g, timeout=4000):
    sc = scale_out(ctx, g)
    if sc is None:
        return False
    c, g2 = frac_elim(*sc)
    g2 = simp(c, g2)
    return g2 is TRUE or c.z3_check(g2, False, timeout)


def ite_strip(b, p):
    """Divide ite atoms homogeneous of degree one in p by p (ite(c, p*a, p*b) -> p*ite(c, a, b))."""
    def strip_b(x):
        if x.kind in ("ge", "gt", "eq"):
            q = go(x.data[0])
            if q.t:
                c, _ = content_split(q)
                e = dict(c.t[0][0]).get(p, 0)
                if e:
                    q = q * of_mono(((p, -e),))
            return {"ge": ge0, "gt": gt0, "eq": eq0}[x.kind](q)
        return map_b(x, go, strip_b)

    def rule(a):
        if a.kind == "ite":
            c, x, y = a.data
            x, y = go(x), go(y)
            c = strip_b(c)
            x2, y2 = x * of_mono(((p, -1),)), y * of_mono(((p, -1),))
            if p not in x2.free and p not in y2.free and (p in x.free or p in y.free):
                return poly(p) * ite(c, x2, y2)
            return ite(c, x, y)
        return None

    def go(x):
        return rewrite(x, rule)
    return strip_b(b) if b.kind in ("ge", "gt", "eq") else map_b(b, go, strip_b)


def prove(ctx, g):
    """Prove boolean goal."""
    if any(a.kind == "floor" for a in all_atoms(g)) and homogeneous(ctx, g):
        return PROVED
    if ctx.entails(g):
        return PROVED
    g2 = simp(ctx, g)
    if g2 is TRUE or ctx.entails(g2):
        return PROVED
    if g2.kind == "and":
        for x in g2.data:
            r = prove(ctx, x)
            if not r:
                return r
        return PROVED
    if g2.kind == "eq":
        return prove_eq(ctx, g2.data[0], ZERO)
    for env in ctx.samples(8, 1):
        try:
            if not ev_b(g, env):
                return Result("refuted", "countermodel", env)
        except EvalError:
            pass
    return Result("unknown", f"residual {str(g2)[:400]}")
