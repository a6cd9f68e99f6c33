"""Obligations, verdicts and helpers shared by the rules."""
import ast
import os
import time

from .terms import *          # noqa
from . import terms as TM
from .repo import Repo, FuncV, PropV, ClassV
from .interp import Interp, St, Ref, Blow, ObjRec, ArrRec, DictRec, ListRec, BoundV

HOLDS, VIOLATED, UNKNOWN = "holds", "violated", "unknown"

# functions whose meaning is known to the comparison: two different ones are
# different functions, so a mismatch between them is a real difference
KNOWN_FN = {"int", "round", "floor", "ceil", "exp", "log", "sqrt", "sum", "any", "all", "len", "shape", "size",
            "pi", "nan", "isnan", "isinf", "isfinite", "range", "pathjoin", "str", "fmt", "arange", "convolve",
            "in", "type", "isinstance", "os.path.getsize", "sign", "concat", "append", "ravel", "T", "hasattr", "getattr"}
PLAIN = {"c", "sym", "add", "mul", "div", "pow", "lt", "le", "eq", "and", "or", "not", "truth", "sel", "min",
         "max", "abs", "inv", "idx", "store", "slice", "tuple", "list", "flat", "arr", "floordiv", "mod", "kv",
         "shape", "where1", "dict", "view", "fn", "undef"}


def vocabulary(t):
    out = set()
    for x in subterms(t):
        if x.op in PLAIN:
            continue
        if x.op in ("app", "aapp", "pw"):
            out.add((x.op, x.args[0]))
        else:
            out.add(x)
    return out


def opaque(actual, expected):
    """parts of the actual value the comparison cannot interpret"""
    ev = vocabulary(expected)
    bad = []
    for v in vocabulary(actual):
        if v in ev:
            continue
        if isinstance(v, tuple):
            nm = v[1]
            if nm in KNOWN_FN:
                continue
        bad.append(v)
    return bad


def counters(R):
    """loop counters: {term: (first value, step)}"""
    m = {}
    for L in R.I.loops.values():
        it = L.iter
        if isinstance(it, T) and it.op == "app" and it.args[0] == "range" and num(it.args[1]) is not None and num(it.args[3]) is not None:
            m[mk("elem", L.id, "i", "s")] = (num(it.args[1]), num(it.args[3]))
        for l, ph in L.phi.items():
            n0, nx = L.init.get(l), L.next.get(l)
            if isinstance(n0, T) and num(n0) is not None and isinstance(nx, T) and not is_array(ph):
                d = num(norm(add(nx, mul(C(-1), ph))))
                if d:
                    m[ph] = (num(n0), d)
    return m


def passes_differ(R, actual, expected, facts, op):
    """a pass of a loop in which the values differ, when all that is not interpreted are loop counters compared with constants"""
    m = counters(R)
    if len(op) != 1 or op[0] not in m:
        return None
    k = op[0]
    ok = ("c", "add", "mul", "mod", "floordiv", "min", "max", "lt", "le", "eq", "and", "or", "not")
    ks = set()
    for x in subterms(actual):
        if x.op in ("lt", "le", "eq") and k in subterms(x):
            if any(y.op not in ok for y in subterms(x) if y is not k):
                return None
            ks |= {abs(int(num(y))) for y in subterms(x) if y.op == "c" and num(y) is not None and abs(num(y)) < 1e6}
    v0, d = m[k]
    for n in sorted({0, 1, 2} | {c + e for c in ks for e in (-2, -1, 0, 1, 2) if c + e >= 0}):
        r = {k: C(v0 + n * d)}
        try:
            q = decide_equal(subst(actual, r), subst(expected, r), facts)
        except (Undecided, RecursionError):
            return None
        if q is not None:
            return (n, q)
    return None


class Ob:
    __slots__ = ("name", "verdict", "where", "detail", "key")

    def __init__(self, name, verdict, where, detail, key):
        self.name = name
        self.verdict = verdict
        self.where = where
        self.detail = detail
        self.key = key


class Ctx:
    def __init__(self, root, tier="quick"):
        self.root = root
        self.tier = tier
        self.t0 = time.time()
        self.repo = Repo(root)
        self.obs = []
        self.notes = []
        self.analysed = set()
        self.events = 0
        self.paths = 0
        self.cache = {}

    # ---------------------------------------------------------- recording
    def add(self, name, verdict, where="", detail="", key=None):
        self.obs.append(Ob(name, verdict, where, detail, key or name))
        return verdict

    def ok(self, name, where="", detail=""):
        return self.add(name, HOLDS, where, detail)

    def bad(self, name, where="", detail="", key=None):
        return self.add(name, VIOLATED, where, detail, key)

    def unk(self, name, where="", detail=""):
        return self.add(name, UNKNOWN, where, detail)

    def note(self, s):
        self.notes.append(s)

    # --------------------------------------------------------- comparison
    def equal(self, name, actual, expected, where="", facts=(), why="", run=None, also=None):
        """also: values some parts can take (used to refute only)"""
        try:
            r = decide_equal(actual, expected, facts)
        except (Undecided, RecursionError) as e:
            return self.unk(name, where, "undecided: %s" % e)
        if r is None:
            return self.ok(name, where, show(norm(expected))[:160])
        op = opaque(actual, expected)
        if op and run is not None:
            n = passes_differ(run, actual, expected, facts, op)
            if n is not None:
                return self.bad(name, where, "in pass %d of the loop the value is %s, required %s%s" % (
                    n[0] + 1, show(n[1][1])[:200], show(n[1][2])[:200], case_text(n[1][0])))
        if op and also:
            a2, e2 = subst(actual, also), subst(expected, also)
            try:
                r2 = decide_equal(a2, e2, facts) if not opaque(a2, e2) else None
            except (Undecided, RecursionError):
                r2 = None
            if r2 is not None:
                return self.bad(name, where, "value is %s, required %s%s" % (show(r2[1])[:200], show(r2[2])[:200], case_text(r2[0])))
        if op:
            return self.unk(name, where, "value contains uninterpreted parts: %s"
                            % ", ".join(str(o)[:40] if isinstance(o, tuple) else show(o)[:40] for o in op[:4]))
        return self.bad(name, where, "%s value is %s, required %s%s" % (
            why + ":" if why else "", show(r[1])[:200], show(r[2])[:200],
            case_text(r[0])))

    def implied(self, name, cond, concl, where="", facts=(), why="", spec=()):
        """cond => concl for every valuation; spec: terms that are free quantities of the specification"""
        try:
            r = implies(cond, concl, facts)
        except (Undecided, RecursionError) as e:
            return self.unk(name, where, "undecided: %s" % e)
        if r is None:
            return self.ok(name, where, why)
        a, b = set(subterms(cond)), set(subterms(concl))
        for t in spec:
            a |= set(subterms(t))
            b |= set(subterms(t))
        op = [x for x in a ^ b if x.op not in PLAIN and not (x.op in ("app", "aapp", "pw") and x.args[0] in KNOWN_FN)]
        if op:
            return self.unk(name, where, "condition contains uninterpreted parts")
        return self.bad(name, where, "%s%s" % (why, case_text(r[0])))

    # ------------------------------------------------------------ analyses
    def interp(self):
        return Interp(self.repo)

    def method(self, name, cls="DeltaModel"):
        c = self.repo.cls(cls)
        return c.find(name) if c is not None else None

    def run_method(self, name, args=(), kw=None, cls="DeltaModel", routers=False, pre=None, fields=None, key=None,
                   lazy="self", override=None):
        """summary of one method call on an arbitrary object"""
        k = key or ("run", cls, name, routers, lazy)
        plain = pre is None and fields is None and not args and not kw and not override
        if k in self.cache and (plain or key):
            return self.cache[k]
        c = self.repo.cls(cls)
        fv = c.find(name) if c is not None else None
        if not isinstance(fv, FuncV):
            return None
        I = self.interp()
        st = St({}, {}, ())
        o = I.new_obj(st, c, lazy)
        if override:
            I.dispatch_override.update(override)
        if fields:
            r = st.heap[o.id]
            st.heap[o.id] = ObjRec(r.cls, dict(fields), r.lazy)
        if routers:
            i = c.find("init_sediment_routers")
            if isinstance(i, FuncV):
                I.run(st, i, [o])
        if pre:
            pre(I, st, o)
        ev0 = len(I.events)
        a = [x(I, st, o) if callable(x) else x for x in args]
        v = I.run(st, fv, [o] + a, kw or {})
        R = Run(self, I, st, o, v, fv, ev0)
        self.absorb(I)
        if plain or key:
            self.cache[k] = R
        return R

    def absorb(self, I):
        self.events += len(I.events)
        for e in I.events:
            if e.kind == "enterfn" and e.data is not None:
                self.analysed.add(e.data.qual)

    def run_func(self, mod, name, args, kw=None):
        fv = self.repo.func(mod, name)
        if not isinstance(fv, FuncV):
            return None
        I = self.interp()
        st = St({}, {}, ())
        a = [x(I, st) if callable(x) else x for x in args]
        v = I.run(st, fv, a, kw or {})
        R = Run(self, I, st, None, v, fv, 0)
        R.args = a
        self.absorb(I)
        return R

    def s(self, name, base="self"):
        """initial value of an attribute"""
        r = self.repo
        k = "a" if name in r.array_attrs else "s"
        if name in r.mask_attrs:
            k = "m"
        return sym("%s.%s" % (base, name), k)


class Run:
    def __init__(self, ctx, I, st, obj, value, fv, ev0):
        self.ctx = ctx
        self.I = I
        self.st = st
        self.obj = obj
        self.value = value
        self.fv = fv
        self.ev0 = ev0

    @property
    def where(self):
        return "%s:%d (%s)" % (self.fv.mod.path, self.fv.node.lineno, self.fv.qual)

    @property
    def events(self):
        return self.I.events[self.ev0:]

    def precise(self, label, prop, where):
        """The value a running sum is given was not rounded to single precision on the way."""
        v = self.prop(prop)
        if v in self.I.narrowed:
            self.ctx.bad(label, where, "the sum is rounded to single precision, so small increments are lost")
        else:
            self.ctx.ok(label, where)

    def field(self, name, obj=None):
        o = obj or self.obj
        v = self.I.get_field(self.st, o, name, None)
        return self.I.term(v, self.st) if v is not None else UNDEF

    def raw(self, name, obj=None):
        o = obj or self.obj
        return self.I.get_field(self.st, o, name, None)

    def prop(self, name):
        """value of the attribute as a user reads it (through its property)"""
        from .interp import Frame
        fr = Frame(self.fv, self.st)
        n = len(self.I.events)
        self.I.stack.append(self.fv)
        try:
            v = self.I.getattr(self.obj, name, fr, self.fv.node)
        finally:
            self.I.stack.pop()
        del self.I.events[n:]
        return self.I.term(v, self.st)

    def term(self, v):
        return self.I.term(v, self.st)

    def guards(self, e):
        """conditions under which an event happens, leaving out conditions whose failure raises and loop exits"""
        if not hasattr(self, "_raisers"):
            rs = set()
            for x in self.I.events:
                if x.kind == "raise" and x.pc:
                    for p in x.pc:
                        rs.add(p)
            for stack in self.I.sink:
                for x in stack:
                    for p in x.st.pc:
                        rs.add(p)
            self._raisers = rs
        out = []
        for p in e.pc:
            if p in self.I.exit_conds:
                continue
            if self._fails(p, e.pc):
                continue
            out.append(p)
        return tuple(out)

    def _fails(self, p, pc):
        """the negation of p always leads to an exception"""
        k = (p, pc)
        if not hasattr(self, "_failm"):
            self._failm = {}
        if k not in self._failm:
            r = False
            atoms = subterms(p)
            for stack in self.I.sink:
                for x in stack:
                    rel = [q for q in x.st.pc if q not in pc]
                    if not rel or len(rel) > 6 or not all(subterms(q) & atoms for q in rel):
                        continue
                    try:
                        if implies(not_(p), and_(*rel)) is None:
                            r = True
                            break
                    except (Undecided, RecursionError):
                        pass
                if r:
                    break
            self._failm[k] = r
        return self._failm[k]

    def leaks(self, events=None):
        """writes into containers that outlive the model (of a module, a class, a default argument) of values their key does not determine"""
        out = []
        held = {e.data[1].id for e in self.events if e.kind == "setattr" and len(e.data) > 1 and isinstance(e.data[1], Ref)}
        for e in (self.events if events is None else events):
            if e.kind == "globalset":
                if not isc(e.data[2]):
                    out.append(e)
                continue
            if e.kind not in ("dictset", "dictupdate", "dictdel", "append", "store") or not e.data or not isinstance(e.data[0], Ref):
                continue
            if e.data[0].id not in self.I.modheap:
                continue
            if e.kind == "dictset" and e.data[0].id not in held:
                key = self.closure([e.data[1]])
                tv = [e.data[2]] + ([e.data[4]] if isinstance(e.data[4], T) else list(e.data[4] or ()))
                val = [x for x in self.closure(tv) if x.op in ("sym", "ext", "shape") and x not in key]
                if not val and not any(x.op == "unk" for x in subterms(e.data[2])):
                    continue
            out.append(e)
        return out

    def enters(self, name):
        return [e for e in self.events if e.kind == "enterfn" and e.name == name]

    def escapes(self):
        """exceptions leaving the analysed call"""
        return list(self.I.sink[0])

    def closure(self, terms, also=()):
        """every initial value / external value the given terms depend on, through loops"""
        return closure(self.I, terms)

    def last_store(self, name):
        """where an attribute was last assigned, for the report"""
        w = None
        v = self.raw(name)
        for e in self.events:
            if e.kind == "setattr" and e.name == name:
                w = e
            elif e.kind == "store" and isinstance(v, Ref) and e.data and isinstance(e.data[0], Ref) and \
                    e.data[0].id == v.id:
                w = e
        return at(w) if w is not None else self.where


def at(e):
    if e is None:
        return ""
    return "%s (%s)" % (e.where, e.fn.qual if e.fn else "?")


def case_text(facts):
    if not facts:
        return ""
    parts = []
    for f in facts[:6]:
        if f[0] == "p":
            parts.append("%s %s 0" % (show(f[1])[:60], {1: ">", -1: "<", 0: "=="}[f[2]]))
        else:
            parts.append(("" if f[2] else "not ") + show(f[1])[:60])
    return " when " + ", ".join(parts)


def under(pc, extra=()):
    """path condition as a conjunction"""
    return and_(*pc)


def closure(I, terms):
    """all sub-terms a term depends on (data and control), loop-carried values expanded"""
    seen = set()
    work = list(terms)
    doneloops = set()
    byterm = {}
    for lid, L in I.loops.items():
        for loc, t in L.phi.items():
            byterm[t] = (lid, loc)
        for loc, t in getattr(L, "out", {}).items():
            byterm[t] = (lid, loc)
    while work:
        t = work.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        work.extend(t.args)
        if t.op in ("phi", "lout", "elem") and t.args[0] in I.loops:
            lid = t.args[0]
            L = I.loops[lid]
            b = byterm.get(t)
            if b:
                loc = b[1]
                for d in (L.init, L.next, L.phi):
                    x = d.get(loc)
                    if x is not None:
                        work.append(x)
                for q in L.exits:
                    try:
                        work.append(I.loc_term(loc, q))
                    except Exception:
                        pass
            if lid not in doneloops:
                doneloops.add(lid)
                if L.cond is not None:
                    work.append(L.cond)
                if isinstance(L.iter, T):
                    work.append(L.iter)
                for q in L.exits:
                    work.extend(p for p in q.pc if p not in L.body_pc)
    return seen


def _ctx_sp(self, name, cls="DeltaModel", lazy="self"):
    """initial value of an attribute as read through its property"""
    k = ("sp", cls, lazy, name)
    if k in self.cache:
        return self.cache[k]
    from .interp import Frame
    c = self.repo.cls(cls)
    I = self.interp()
    st = St({}, {}, ())
    o = I.new_obj(st, c, lazy)
    fv = c.find("__init__")
    fr = Frame(fv, st)
    I.stack.append(fv)
    v = I.getattr(o, name, fr, fv.node)
    I.stack.pop()
    t = I.term(v, st)
    self.cache[k] = t
    return t


Ctx.sp = _ctx_sp


def _ends_raise(body):
    """every path through the block raises"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and _ends_raise(s.body) and _ends_raise(s.orelse):
            return True
        if isinstance(s, ast.With) and _ends_raise(s.body):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            n = ast.unparse(s.value.func)
            if n in ("sys.exit", "os._exit"):
                return True
    return False


def swallowed(e):
    """an except clause that catches every error of the event's operation and lets the program go on: (line, broad)"""
    fns = [f for f in e.stack if hasattr(f, "node")]
    for k, f in enumerate(fns):
        nxt = fns[k + 1].name if k + 1 < len(fns) else None

        def here(body):
            for s in body:
                for n in ast.walk(s):
                    if nxt is None:
                        if getattr(n, "lineno", None) == e.line and isinstance(n, (ast.expr, ast.stmt)):
                            return True
                    elif isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")) == nxt:
                        return True
            return False
        for t in ast.walk(f.node):
            if isinstance(t, ast.Try) and here(t.body):
                for h in t.handlers:
                    names = [] if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if not _ends_raise(h.body):
                        return "%s line %d" % (f.qual, h.lineno), not names or bool({"Exception", "BaseException"} & set(names))
                if any(isinstance(s, ast.Return) for s in t.finalbody):
                    return "%s line %d" % (f.qual, t.finalbody[0].lineno), True
            if isinstance(t, ast.With) and any("suppress" in ast.unparse(i.context_expr) for i in t.items) and here(t.body):
                return "%s line %d" % (f.qual, t.lineno), "Exception" in ast.unparse(t.items[0].context_expr)
    return None
