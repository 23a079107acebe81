"""Mechanical extraction of /repo's source on every run.

Each module under /repo/high_order_layers_torch is parsed and rewritten by a fixed,
meaning-preserving AST transformation, then executed against the symbolic runtime.

What the rewriting does (everything else is executed as written):
  * annotations are dropped (never evaluated);
  * `for` bodies become closures handed to run_loop (so that a loop over a symbolic
    range is executed once for an arbitrary iteration);
  * counter `while` loops whose bound does not change become `for` loops;
  * single-generator comprehensions and generator expressions become run_comp calls
    (evaluated eagerly);
  * list displays become journalled lists, attribute/item stores are journalled;
  * float literals become exact rationals, `/` and `**` of native numbers are exact.
What it drops: type annotations, laziness of generator expressions, floating-point
rounding, and tensor devices.
"""
import ast, os, sys, types
from fractions import Fraction
from . import core as C
from . import shim as S
from . import prover as PR
from .core import *
from .core import E, UNBOUND, Ret, BRK
from .terms import *

REPO = os.environ.get("HOV_REPO", "/repo")
PKG = "high_order_layers_torch"


# ------------------------------------------------------------------ analysis
class Names(ast.NodeVisitor):
    """Names assigned in a statement list (same scope only)."""

    def __init__(self):
        self.st = []

    def add(self, n):
        if n not in self.st:
            self.st.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators[:1]:
            self.visit(g.iter)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_NamedExpr(self, n):
        self.add(n.target.id)
        self.visit(n.value)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)


def assigned(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v.st


def reads(node):
    r = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            r.add(n.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            r.add(n.target.id)
    return r


def flow(stmts, defined, exposed):
    """Definite assignment; returns defined set at the end or None if the end is unreachable."""
    for s in stmts:
        if defined is None:
            return None
        if isinstance(s, ast.If):
            exposed |= reads(s.test) - defined
            a = flow(s.body, set(defined), exposed)
            b = flow(s.orelse, set(defined), exposed)
            if a is None:
                defined = b
            elif b is None:
                defined = a
            else:
                defined = a & b
        elif isinstance(s, (ast.For, ast.While)):
            exposed |= reads(s.iter if isinstance(s, ast.For) else s.test) - defined
            d = set(defined)
            if isinstance(s, ast.For):
                d |= set(assigned([ast.Expr(s.target)]))
            flow(s.body, d, exposed)
            flow(s.orelse, set(defined), exposed)
        elif isinstance(s, ast.With):
            for i in s.items:
                exposed |= reads(i) - defined
                if i.optional_vars is not None:
                    defined |= set(assigned([ast.Expr(i.optional_vars)]))
            defined = flow(s.body, defined, exposed)
        elif isinstance(s, ast.Try):
            for part in (s.body, s.orelse, s.finalbody, *[h.body for h in s.handlers]):
                flow(part, set(defined), exposed)
        elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            exposed |= reads(s) - defined
            if isinstance(s, ast.Continue):
                # end of iteration reached here: anything undefined stays carried
                flow.cont.append(set(defined))
            return None
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            exposed |= reads(s) - defined
            defined = defined | {s.name}
        else:
            exposed |= reads(s) - defined
            defined = defined | set(assigned([s]))
    return defined


flow.cont = []


def carried_names(body, targets):
    exposed = set()
    flow.cont = []
    end = flow(body, set(targets), exposed)
    ends = ([end] if end is not None else []) + flow.cont
    asg = [n for n in assigned(body) if n not in targets or True]
    out, read = [], []
    for n in asg:
        if n in exposed or any(n not in d for d in ends):
            out.append(n)
            if n in exposed:
                read.append(n)
    return out, read


# ------------------------------------------------------------------ transformer
def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def call(f, *a):
    return ast.Call(name(f), list(a), [])


class Widen(ast.NodeTransformer):
    """Counters that survive a call (attribute, module variable or dictionary entry increased by a constant
    outside constructors and assigned nowhere else): the stored value becomes an arbitrary larger number, so that
    one execution stands for every number of earlier calls."""

    def __init__(self, tree):
        self.reset, self.fn, self.glob = set(), [], set()
        for f in ast.walk(tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in ast.walk(f):
                    if isinstance(n, ast.Global):
                        self.glob |= set(n.names)
        self.scan(tree, [])

    def scan(self, n, fn):
        for c in ast.iter_child_nodes(n):
            g = fn + [c.name] if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) else fn
            if g and "__init__" not in g:
                for tg in c.targets if isinstance(c, ast.Assign) else [c.target] if isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)) else []:
                    for x in ast.walk(tg):
                        if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, ast.Store) and self.inc(c) is None:
                            self.reset.add(x.attr if isinstance(x, ast.Attribute) else x.id)
            self.scan(c, g)

    def inc(self, n):
        """(target, new value) if n increases an attribute, entry or variable by a positive constant."""
        def const(e):
            return isinstance(e, ast.Constant) and type(e.value) is int and e.value > 0
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and const(n.value):
            import copy
            old = copy.deepcopy(n.target)
            old.ctx = ast.Load()
            return n.target, ast.BinOp(old, ast.Add(), n.value)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and (const(n.value.right) or const(n.value.left)):
            tg, o = n.targets[0], n.value.left if const(n.value.right) else n.value.right
            load = lambda x: ast.dump(x).replace("Store()", "Load()")
            if load(o) == load(tg):
                return tg, n.value
            if isinstance(o, ast.Call) and len(o.args) >= 2 and isinstance(tg, ast.Attribute) and isinstance(o.func, ast.Name) and o.func.id == "getattr" \
                    and load(o.args[0]) == load(tg.value) and isinstance(o.args[1], ast.Constant) and o.args[1].value == tg.attr:
                return tg, n.value
            if isinstance(o, ast.Call) and o.args and isinstance(tg, ast.Subscript) and isinstance(o.func, ast.Attribute) and o.func.attr in ("get", "setdefault") \
                    and load(o.func.value) == load(tg.value) and load(o.args[0]) == load(tg.slice):
                return tg, n.value
        return None

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def change(self, n):
        r = self.inc(n) if self.fn and "__init__" not in self.fn else None
        if r is None:
            return n
        tg, val = r
        if isinstance(tg, ast.Attribute):
            ok, base = tg.attr not in self.reset, ast.Constant(None)
        elif isinstance(tg, ast.Name):
            ok, base = tg.id in self.glob and tg.id not in self.reset, ast.Constant(None)
        elif isinstance(tg, ast.Subscript) and isinstance(tg.value, (ast.Name, ast.Attribute)):
            ok = True
            base = ast.Constant(None) if isinstance(tg.value, ast.Attribute) else name(tg.value.id)
        else:
            ok = False
        if not ok:
            return n
        return ast.copy_location(ast.Assign([tg], call("hov_widen", val, base)), n)

    visit_AugAssign = visit_Assign = change


def r_widen(v, base):
    """An arbitrary number not below v, for a counter kept between calls."""
    if base is not None and not (isinstance(base, dict) and id(base) in S.STATE_ENTRIES):
        return v
    if not isinstance(v, int) and not (isinstance(v, Sc) and v.k == "i") or isinstance(v, bool):
        return v
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_name == "__init__" and "self" in f.f_locals and isinstance(f.f_locals["self"], (S.Module, S.Optimizer)):
            return v
        f = f.f_back
    u = poly(T.fresh("earlier_calls"))
    E.assume(ge0(u - poly(num(v))))
    return Sc(u, "i")


class Tx(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.scope = []       # ('func', locals) / ('class', name) / ('loop',)
        self.k = 0
        self.first = []
        self.extra = []

    def fresh(self, b):
        self.k += 1
        return f"hov_{b}{self.k}"

    def in_func(self):
        return any(s[0] == "func" for s in self.scope)

    # ---------------------------------------------------- scopes
    def visit_FunctionDef(self, n):
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.walk_scope(n.body))
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        qual = ".".join([s[1] for s in self.scope if s[0] in ("class",)] + [n.name])
        params = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]]
        decl = set()
        for x in self.walk_scope(n.body):
            if isinstance(x, (ast.Nonlocal, ast.Global)):
                decl |= set(x.names)
        loc = [x for x in assigned(n.body) if x not in params and x not in decl]
        self.scope.append(("func", n.name, gen, set(loc) | set(params), decl))
        self.first.append(params[0] if params else None)
        self.extra.append([])
        body = self.stmts(n.body)
        loc = loc + self.extra.pop()
        self.first.pop()
        self.scope.pop()
        pre = []
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = [body[0]], body[1:]
        lead = []
        while body and isinstance(body[0], (ast.Nonlocal, ast.Global)):
            lead.append(body[0])
            body = body[1:]
        for v in loc:
            pre.append(ast.Assign([name(v, ast.Store())], name("hov_UNBOUND")))
        pre.append(ast.Expr(call("hov_called", ast.Constant(f"{self.mod}.{qual}"))))
        n.body = doc + lead + pre + body
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def walk_scope(self, body):
        todo = list(body)
        while todo:
            x = todo.pop()
            yield x
            for c in ast.iter_child_nodes(x):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.append(c)

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.scope.append(("class", n.name))
        n.body = self.stmts(n.body)
        self.scope.pop()
        return n

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        return n

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    # ---------------------------------------------------- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return call("hov_flt", ast.Constant(repr(n.value)))
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call("hov_TList", n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return call("hov_div", n.left, n.right)
        if isinstance(n.op, ast.Pow):
            return call("hov_pow", n.left, n.right)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and self.first and self.first[-1]:
            n.args = [name("__class__"), name(self.first[-1])]
        return n

    def _lam(self, tgt, e):
        """lambda over target pattern."""
        if isinstance(tgt, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(tgt.id)], None, [], [], None, []), e)
        if isinstance(tgt, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in tgt.elts):
            inner = ast.Lambda(ast.arguments([], [ast.arg(x.id) for x in tgt.elts], None, [], [], None, []), e)
            t = self.fresh("t")
            return ast.Lambda(ast.arguments([], [ast.arg(t)], None, [], [], None, []), ast.Call(inner, [ast.Starred(name(t), ast.Load())], []))
        # nested pattern: destructure positionally
        if isinstance(tgt, (ast.Tuple, ast.List)):
            ts = [x.id if isinstance(x, ast.Name) else self.fresh("t") for x in tgt.elts]
            for x, nm in zip(tgt.elts, ts):
                if not isinstance(x, ast.Name):
                    e = ast.Call(self._lam(x, e), [name(nm)], [])
            return self._lam(ast.Tuple([ast.Name(v, ast.Store()) for v in ts], ast.Store()), e)
        raise Unsupported("comprehension target")

    def _comp(self, n):
        self.generic_visit(n)
        e = n.elt
        gens = n.generators
        res = None
        for g in reversed(gens):
            c = None
            if g.ifs:
                c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            lam = self._lam(g.target, e)
            args = [g.iter, lam] + ([self._lam(g.target, c)] if c is not None else [])
            res = call("hov_comp" if g is gens[-1] else "hov_compflat", *args)
            e = res
        return res

    def visit_ListComp(self, n):
        if not self.in_func():
            return self.generic_visit(n)
        return self._comp(n)

    def visit_GeneratorExp(self, n):
        if not self.in_func():
            return self.generic_visit(n)
        return self._comp(n)

    # ---------------------------------------------------- statements
    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    def store(self, tgt, val):
        """Statements storing expression val (already transformed) into tgt."""
        if isinstance(tgt, ast.Attribute):
            return [ast.Expr(call("hov_setattr", self.visit(tgt.value), ast.Constant(tgt.attr), val))]
        if isinstance(tgt, ast.Subscript):
            return [ast.Expr(call("hov_setitem", self.visit(tgt.value), self.index(tgt.slice), val))]
        if isinstance(tgt, (ast.Tuple, ast.List)) and any(not isinstance(x, ast.Name) for x in tgt.elts):
            out, ts = [], []
            for x in tgt.elts:
                if isinstance(x, ast.Starred):
                    ts.append(ast.Starred(name(self.fresh("s"), ast.Store()), ast.Store()))
                else:
                    ts.append(name(self.fresh("s"), ast.Store()))
            out.append(ast.Assign([ast.Tuple(ts, ast.Store())], val))
            for x, t in zip(tgt.elts, ts):
                if isinstance(x, ast.Starred):
                    out += self.store(x.value, name(t.value.id))
                else:
                    out += self.store(x, name(t.id))
            return out
        return [ast.Assign([tgt], val)]

    def index(self, s):
        if isinstance(s, ast.Slice):
            z = lambda x: self.visit(x) if x is not None else ast.Constant(None)
            return call("slice", z(s.lower), z(s.upper), z(s.step))
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self.index(x) for x in s.elts], ast.Load())
        return self.visit(s)

    def visit_Assign(self, n):
        val = self.visit(n.value)
        if len(n.targets) == 1:
            return self.loc(self.store(n.targets[0], val), n)
        t = self.fresh("v")
        out = [ast.Assign([name(t, ast.Store())], val)]
        for tg in n.targets:
            out += self.store(tg, name(t))
        return self.loc(out, n)

    def loc(self, stmts, n):
        for s in stmts:
            ast.copy_location(s, n)
        return stmts

    OPS = {ast.Div: "hov_idiv", ast.Pow: "hov_ipow"}

    def visit_AugAssign(self, n):
        val = self.visit(n.value)
        t = self.fresh("a")
        f = self.OPS.get(type(n.op))

        def upd(nm):
            if f:
                return [ast.Assign([name(nm, ast.Store())], call(f, name(nm), val))]
            return [ast.AugAssign(name(nm, ast.Store()), n.op, val)]
        if isinstance(n.target, ast.Name):
            return self.loc(upd(n.target.id), n)
        if isinstance(n.target, ast.Attribute):
            o = self.fresh("o")
            out = [ast.Assign([name(o, ast.Store())], self.visit(n.target.value)),
                   ast.Assign([name(t, ast.Store())], ast.Attribute(name(o), n.target.attr, ast.Load()))] + upd(t) + \
                  [ast.Expr(call("hov_setattr", name(o), ast.Constant(n.target.attr), name(t)))]
            return self.loc(out, n)
        o, i = self.fresh("o"), self.fresh("i")
        out = [ast.Assign([name(o, ast.Store())], self.visit(n.target.value)),
               ast.Assign([name(i, ast.Store())], self.index(n.target.slice)),
               ast.Assign([name(t, ast.Store())], ast.Subscript(name(o), name(i), ast.Load()))] + upd(t) + \
              [ast.Expr(call("hov_setitem", name(o), name(i), name(t)))]
        return self.loc(out, n)

    def visit_Return(self, n):
        v = self.visit(n.value) if n.value is not None else ast.Constant(None)
        if self.scope and self.scope[-1][0] == "loop":
            return ast.Return(call("hov_Ret", v))
        return ast.Return(v)

    def visit_Break(self, n):
        if self.scope and self.scope[-1][0] == "loop":
            return ast.Return(name("hov_BRK"))
        return n

    def visit_Continue(self, n):
        if self.scope and self.scope[-1][0] == "loop":
            return ast.Return(ast.Constant(None))
        return n

    def func_scope(self):
        for s in reversed(self.scope):
            if s[0] == "func":
                return s
        return None

    def visit_While(self, n):
        w = self.as_for(n)
        if w is not None:
            return self.visit(w) if not isinstance(w, list) else [y for x in w for y in (lambda r: r if isinstance(r, list) else [r])(self.visit(x))]
        return self.native_loop(n)

    def native_loop(self, n):
        fs = self.func_scope()
        inloop = self.scope and self.scope[-1][0] == "loop"
        self.scope.append(("nloop",))
        # return inside a native loop nested in a loop closure must still be wrapped
        if isinstance(n, ast.While):
            n.test = self.visit(n.test)
        else:
            n.iter = self.visit(n.iter)
        n.body = self.stmts_in(n.body, inloop)
        n.orelse = self.stmts_in(n.orelse, inloop) if n.orelse else []
        self.scope.pop()
        return n

    def stmts_in(self, body, inloop):
        out = self.stmts(body)
        if inloop:
            class W(ast.NodeTransformer):
                def visit_Return(s, r):
                    return ast.Return(call("hov_Ret", r.value))

                def visit_FunctionDef(s, f):
                    return f

                def visit_Lambda(s, f):
                    return f
            out = [W().visit(s) for s in out]
        return out

    def as_for(self, n):
        """while i < N: ...; i += c   ->   for"""
        t = n.test
        if n.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)) and isinstance(r, ast.Name):
            l, r = r, l
            op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        if not isinstance(l, ast.Name) or not isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)):
            return None
        i = l.id
        asg = set(assigned(n.body))
        for x in ast.walk(r):
            if isinstance(x, ast.Name) and x.id in asg:
                return None
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("len", "int")):
                return None
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Continue):
                    return None
        step, cnt = None, 0
        for s in n.body:
            if i in assigned([s]):
                cnt += 1
                if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and type(s.value.value) is int and s.value.value > 0:
                    step = s.value.value
                elif isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and isinstance(s.value.left, ast.Name) and s.value.left.id == i and isinstance(s.value.right, ast.Constant) and type(s.value.right.value) is int and s.value.right.value > 0 and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    step = s.value.right.value
                else:
                    return None
        if cnt != 1 or step is None or isinstance(op, ast.NotEq) and step != 1:
            return None
        v = self.fresh("w")
        if self.extra:
            self.extra[-1].append(v)
        hi = r if not isinstance(op, ast.LtE) else ast.BinOp(r, ast.Add(), ast.Constant(1))
        f = ast.For(name(v, ast.Store()), ast.Call(name("range"), [name(i), hi, ast.Constant(step)], []),
                    [ast.Assign([name(i, ast.Store())], name(v))] + n.body, [])
        return ast.fix_missing_locations(ast.copy_location(f, n))

    def visit_For(self, n):
        fs = self.func_scope()
        if fs is None or fs[2] or (self.scope and self.scope[-1][0] == "class"):
            return self.native_loop(n)
        for x in self.walk_scope(n.body):
            if isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.Delete)):
                return self.native_loop(n)
        targets = assigned([ast.Expr(n.target)]) if not isinstance(n.target, ast.Name) else [n.target.id]
        body_names = assigned(n.body)
        names = [x for x in dict.fromkeys(targets + body_names) if x not in fs[4]]
        carried, exposed = [[x for x in z if x not in fs[4]] for z in carried_names(n.body, targets)]
        it = self.visit(n.iter)
        b, g, s, r, x = (self.fresh(k) for k in ("body", "get", "set", "r", "x"))
        self.scope.append(("loop",))
        body = self.stmts(n.body)
        self.scope.pop()
        inloop = self.scope and self.scope[-1][0] == "loop"
        nl = [ast.Nonlocal(list(names))] if names else []
        bdef = ast.FunctionDef(b, ast.arguments([], [ast.arg(x)], None, [], [], None, []),
                               nl + self.store(n.target, name(x)) + body, [], type_params=[])
        gdef = ast.FunctionDef(g, ast.arguments([], [], None, [], [], None, []),
                               [ast.Return(ast.Dict([ast.Constant(k) for k in names], [name(k) for k in names]))], [], type_params=[])
        sdef = ast.FunctionDef(s, ast.arguments([], [ast.arg("hov_d")], None, [], [], None, []),
                               (nl + [ast.Assign([name(k, ast.Store())], ast.Call(ast.Attribute(name("hov_d"), "get", ast.Load()), [ast.Constant(k), name("hov_UNBOUND")], [])) for k in names]) or [ast.Pass()], [], type_params=[])
        out = [bdef, gdef, sdef,
               ast.Assign([name(r, ast.Store())], call("hov_loop", it, name(b), name(g), name(s), ast.List([ast.Constant(c) for c in carried], ast.Load()), ast.List([ast.Constant(c) for c in exposed], ast.Load())))]
        ret = ast.Return(name(r)) if inloop else ast.Return(ast.Attribute(name(r), "v", ast.Load()))
        if any(isinstance(q, ast.Return) for q in self.walk_scope(n.body)):
            out.append(ast.If(ast.Call(name("hov_isret"), [name(r)], []), [ret], []))
        if n.orelse:
            out.append(ast.If(ast.Compare(name(r), [ast.IsNot()], [name("hov_BRK")]), self.stmts(n.orelse), []))
        return self.loc(out, n)


# ------------------------------------------------------------------ runtime
def r_flt(s):
    x = float(s)
    if x != x or x in (float("inf"), float("-inf")):
        return x
    return Sc(const(Fraction(s) if "e" not in s.lower() else Fraction(repr(x))), "f")


def r_div(a, b):
    if (is_num(a) or isinstance(a, bool)) and (is_num(b) or isinstance(b, bool)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
            return a / b
        return Sc(div(poly(a), poly(b)), "f")
    return a / b


def r_pow(a, b):
    if (is_num(a)) and is_num(b):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        return Sc(num(a), kind_of(a)) ** b
    if isinstance(b, Sc) and b.p.is_const() and b.p.const().denominator == 1 and isinstance(a, (Sc, int)):
        r = Sc(num(a), kind_of(a)) ** int(b.p.const())
        return Sc(num(r), "f") if b.k == "f" else r
    return a ** b


def r_idiv(a, b):
    if hasattr(a, "__itruediv__"):
        a /= b
        return a
    return r_div(a, b)


def r_ipow(a, b):
    if hasattr(a, "__ipow__"):
        a **= b
        return a
    return r_pow(a, b)


def r_setitem(o, k, v):
    if isinstance(o, dict):
        had, old = k in o, o.get(k)

        def undo():
            if had:
                o[k] = old
            else:
                o.pop(k, None)
        E.log(undo)
        if C.LOOP_REC:
            raise Unsupported("dict item assignment inside a generic loop")
    if isinstance(o, list):
        o = fwd(o)
    o[k] = v


def r_called(q):
    E.called.add(q)


def r_loop(it, body, get, set_, carried, exposed=()):
    if isinstance(it, list):
        it = fwd(it)
    return run_loop(it, body, get, set_, carried, exposed)


def r_comp(it, f, cond=None):
    if isinstance(it, list):
        it = fwd(it)
    return run_comp(it, f, cond)


def r_compflat(it, f, cond=None):
    if isinstance(it, list):
        it = fwd(it)
    s = as_symiter(it)
    if s is not None:
        raise Unsupported("nested comprehension over a symbolic range")
    out = TList()
    for x in it:
        if cond is not None and not cond(x):
            continue
        r = fwd(f(x))
        if isinstance(r, SymList):
            raise Unsupported("nested comprehension over a symbolic range")
        list.extend(out, r)
    return out


RUNTIME = {
    "hov_flt": r_flt, "hov_div": r_div, "hov_pow": r_pow, "hov_idiv": r_idiv, "hov_ipow": r_ipow, "hov_setitem": r_setitem, "hov_widen": r_widen,
    "hov_setattr": lambda o, k, v: S.setattr_j(o, k, v), "hov_TList": lambda x: TList(x), "hov_called": r_called,
    "hov_loop": r_loop, "hov_comp": r_comp, "hov_compflat": r_compflat, "hov_Ret": Ret, "hov_BRK": BRK,
    "hov_UNBOUND": UNBOUND, "hov_isret": lambda r: isinstance(r, Ret),
}


class Loader:
    def __init__(self, repo=None, contracts=None):
        self.repo = repo or REPO
        self.mods = {}
        self.contracts = contracts or {}
        self.builtins = S.make_builtins(self.imp)
        self.sources = {}
        self.bodies = {}      # contract name -> unwrapped body
        self.defined = {}     # qualified name -> (file, lineno)
        pk = types.ModuleType(PKG)
        pk.__path__ = [os.path.join(self.repo, PKG)]
        self.mods[PKG] = pk

    def path_of(self, full):
        p = os.path.join(self.repo, *full.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, full):
        if full in self.mods and full != PKG:
            return self.mods[full]
        path, ispkg = self.path_of(full)
        if not os.path.exists(path):
            if ispkg:
                m = types.ModuleType(full)
                m.__package__ = full
                self.mods[full] = m
                return m
            raise ModuleNotFoundError(f"No module named '{full}'")
        src = open(path).read()
        self.sources[os.path.relpath(path, self.repo)] = src
        tree = ast.parse(src, path)
        self.index(full, tree, path)
        tree = Widen(tree).visit(tree)
        tx = Tx(full[len(PKG) + 1:] or PKG)
        tree.body = tx.stmts(tree.body)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if ispkg else full.rsplit(".", 1)[0]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__.update(RUNTIME)
        self.mods[full] = m
        code = compile(tree, path, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(full, None)
            raise
        short = full[len(PKG) + 1:]
        todo = [(q.split(":")[1], wrap) for q, wrap in self.contracts.items() if q.split(":")[0] == short]
        for qual, wrap, o, f in [(qual, wrap) + self.resolve(m, qual) for qual, wrap in todo]:
            if f is not None:
                self.bodies[m.__name__[len(PKG) + 1:] + ":" + qual] = f
                g = wrap(f)
                g.__hov_raw__ = f
                setattr(o, qual.split(".")[-1], g)
        m.__dict__["__all__"] = [k for k in m.__dict__ if not k.startswith("_")]
        if "." in full:
            par = full.rsplit(".", 1)[0]
            if par not in self.mods:
                self.load(par)
            setattr(self.mods[par], full.rsplit(".", 1)[1], m)
        return m

    def resolve(self, m, qual):
        """(owner, body) of a function under contract: its own definition or the one it inherits from a class of the repository."""
        parts = qual.split(".")
        o = m
        for p in parts[:-1]:
            o = getattr(o, p, None)
            if o is None:
                return None, None
        if isinstance(o, type):
            for c in o.__mro__:
                if parts[-1] in c.__dict__:
                    if not str(c.__module__).startswith(PKG):
                        return None, None
                    f = c.__dict__[parts[-1]]
                    return o, getattr(f, "__hov_raw__", f)
            return None, None
        f = o.__dict__.get(parts[-1])
        return o, f

    def index(self, full, tree, path):
        short = full[len(PKG) + 1:]

        def go(body, pre):
            for s in body:
                if isinstance(s, ast.FunctionDef):
                    self.defined[f"{short}.{pre}{s.name}"] = (os.path.relpath(path, self.repo), s.lineno)
                elif isinstance(s, ast.ClassDef):
                    go(s.body, pre + s.name + ".")
        go(tree.body, "")

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get("__package__", PKG)
            for _ in range(level - 1):
                base = base.rsplit(".", 1)[0]
            full = base + ("." + nm if nm else "")
        else:
            full = nm
        if full == PKG or full.startswith(PKG + "."):
            m = self.load(full) if full != PKG else self.mods[PKG]
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(full + "." + f))
                        except ModuleNotFoundError:
                            raise ImportError(f"cannot import name {f} from {full}")
                return m
            return self.mods[PKG]
        if full in S.MODULES:
            m = S.MODULES[full]
            if fromlist:
                return m
            return S.MODULES[full.split(".")[0]]
        root = full.split(".")[0]
        if full in S.REAL_OK or root in S.REAL_OK:
            return __import__(full, None, None, fromlist, 0)
        if root in S.MODULES:
            x = S.MODULES[root]
            for p in full.split(".")[1:]:
                x = getattr(x, p)
            if fromlist:
                return x if isinstance(x, types.ModuleType) else FakeNS(full)
            return S.MODULES[root]
        fm = S.FakeModule(full)
        S.MODULES[full] = fm
        return fm if fromlist else S.FakeModule(root)


class FakeNS(S.FakeModule):
    pass
