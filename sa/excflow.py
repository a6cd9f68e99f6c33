"""Exceptional-flow typestate analysis of a job's run method.

Collecting semantics over the syntax tree: every call on the job's model may return or raise; the abstract state counts releases of the
slot, attempts to finalize, failures and reports.  Helpers of the class and module are inlined."""
import ast

from .repo import FuncV

RV = ("RuntimeError", "ValueError")
RAISES = RV + ("OtherException", "BaseOther")
TOP = ("top",)


class GiveUp(Exception):
    pass


class S:
    """abstract state (immutable)"""
    __slots__ = ("rel", "fin", "failed", "pending", "falsely", "after", "env", "exc", "where")

    def __init__(s, rel=0, fin=0, failed=False, pending=None, falsely=None, after=None, env=(), exc=None):
        s.rel, s.fin, s.failed, s.pending, s.falsely, s.after, s.env, s.exc = rel, fin, failed, pending, falsely, after, env, exc

    def key(s):
        return (s.rel, s.fin, s.failed, s.pending, s.falsely, s.after, s.env, s.exc)

    def __eq__(s, o):
        return s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    def set(s, **k):
        d = {f: getattr(s, f) for f in ("rel", "fin", "failed", "pending", "falsely", "after", "env", "exc")}
        d.update(k)
        return S(**d)

    def get(s, n):
        for k, v in s.env:
            if k == n:
                return v
        return None

    def put(s, n, v):
        return s.set(env=tuple(sorted([(k, x) for k, x in s.env if k != n] + [(n, v)], key=lambda p: p[0])))


REPORT = ("error", "exception", "critical", "warning")


class Flow:
    def __init__(self, repo, fv, model="deltamodel", slot="sema", queue="queue"):
        self.repo = repo
        self.fv = fv
        self.model, self.slot, self.queue = model, slot, queue
        self.sites = set()
        self.depth = 0
        self.stack = [fv]
        self.nodes = {}
        self.steps = 0

    # -------------------------------------------------------------- driver
    def run(self):
        pos = self.fv.node.args.args
        s = S()
        s = s.put(self.var(pos[0].arg), ("self",))
        out = set()
        for kind, st in self.block(self.fv.node.body, {s}):
            out.add(("n" if kind in ("n", "r") else kind, st))
        return out

    def var(self, n):
        return "%d:%s" % (self.depth, n)

    def line(self, n):
        return "%s:%d" % (self.stack[-1].mod.path, getattr(n, "lineno", 0))

    # ---------------------------------------------------------- statements
    def block(self, stmts, states):
        """-> set of (kind, state)"""
        out = set()
        cur = set(states)
        for s in stmts:
            nxt = set()
            for st in cur:
                for k, q in self.stmt(s, st):
                    if k == "n":
                        nxt.add(q)
                    else:
                        out.add((k, q))
            cur = nxt
            if not cur:
                break
            if len(cur) > 4000:
                raise GiveUp("too many states")
        return out | {("n", q) for q in cur}

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > 400000:
            raise GiveUp("too many steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise GiveUp("statement %s at %s" % (type(s).__name__, self.line(s)))
        return m(s, st)

    def s_Pass(self, s, st):
        return {("n", st)}
    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_Expr(self, s, st):
        return {(k, q) for k, q, _ in self.ev(s.value, st)}

    def s_Assert(self, s, st):
        return {(k, q) for k, q, _ in self.ev(s.test, st)}

    def s_Assign(self, s, st):
        out = set()
        for k, q, v in self.ev(s.value, st):
            if k == "n":
                for t in s.targets:
                    q = self.bind(t, v, q)
            out.add((k, q))
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return {("n", st)}
        return self.s_Assign(ast.Assign(targets=[s.target], value=s.value, lineno=s.lineno), st)

    def s_AugAssign(self, s, st):
        out = set()
        for k, q, v in self.ev(s.value, st):
            if k == "n":
                q = self.bind(s.target, TOP, q)
            out.add((k, q))
        return out

    def bind(self, t, v, st):
        if isinstance(t, ast.Name):
            return st.put(self.var(t.id), v)
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                x = v[1][i] if v and v[0] == "seq" and i < len(v[1]) else TOP
                st = self.bind(e, x, st)
            return st
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and st.get(self.var(t.value.id)) == ("self",):
            if t.attr in (self.model, self.slot, self.queue):
                raise GiveUp("%s is reassigned" % t.attr)
            return st.put("self." + t.attr, v)
        return st

    def s_Return(self, s, st):
        if s.value is None:
            return {("r", st.put(self.var("$ret"), ("c", None)))}
        return {("r", q.put(self.var("$ret"), v)) if k == "n" else (k, q) for k, q, v in self.ev(s.value, st)}

    def s_Break(self, s, st):
        return {("b", st)}

    def s_Continue(self, s, st):
        return {("c", st)}

    def s_FunctionDef(self, s, st):
        if s.decorator_list:
            raise GiveUp("decorated local function")
        k = id(s)
        self.nodes[k] = s
        return {("n", st.put(self.var(s.name), ("def", k, self.depth)))}

    def s_Delete(self, s, st):
        return {("n", st)}

    def s_If(self, s, st):
        out = set()
        for k, q, v in self.ev(s.test, st):
            if k != "n":
                out.add((k, q))
                continue
            b = self.truth(v)
            if b is not False:
                out |= self.block(s.body, {self.assume(s.test, True, q)})
            if b is not True:
                out |= self.block(s.orelse, {self.assume(s.test, False, q)})
        return out

    def assume(self, t, val, st):
        if isinstance(t, ast.Name) and st.get(self.var(t.id)) in (None, TOP):
            return st
        return st

    def loop(self, states, enter, body, orelse, infinite=False):
        """enter(state) -> [(kind, state, may_enter, may_leave)]"""
        out = set()
        seen = set()
        work = set(states)
        leave = set()
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            for k, q, ent, lv in enter(st):
                if k != "n":
                    out.add((k, q))
                    continue
                if lv:
                    leave.add(q)
                if ent:
                    for kk, x in self.block(body, {q}):
                        if kk in ("n", "c"):
                            work.add(x)
                        elif kk == "b":
                            out.add(("n", x))
                        else:
                            out.add((kk, x))
            if len(seen) > 4000:
                raise GiveUp("loop does not converge")
        return out | self.block(orelse, leave)

    def s_While(self, s, st):
        def enter(q):
            r = []
            for k, x, v in self.ev(s.test, q):
                b = self.truth(v) if k == "n" else None
                r.append((k, x, b is not False, b is not True))
            return r
        return self.loop({st}, enter, s.body, s.orelse)

    def s_For(self, s, st):
        out = set()
        for k, q, v in self.ev(s.iter, st):
            if k != "n":
                out.add((k, q))
                continue
            if v and v[0] == "seq" and len(v[1]) <= 8:
                # literal sequence: unrolled
                cur = {("n", q)}
                done = set()
                for x in v[1]:
                    nxt = set()
                    for kk, z in cur:
                        for k2, y in self.block(s.body, {self.bind(s.target, x, z)}):
                            if k2 in ("n", "c"):
                                nxt.add(("n", y))
                            elif k2 == "b":
                                done.add(("n", y))
                            else:
                                done.add((k2, y))
                    cur = nxt
                for _, z in cur:
                    done |= self.block(s.orelse, {z})
                out |= done
                continue
            out |= self.loop({q}, lambda z: [("n", self.bind(s.target, TOP, z), True, True)], s.body, s.orelse)
        return out

    def s_Raise(self, s, st):
        if s.exc is None:
            if st.exc is None:
                raise GiveUp("re-raise outside a handler")
            return {(("x", st.exc), self.fail(st, st.exc, s))}
        n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        out = set()
        for k, q, v in self.ev(s.exc, st):
            if k != "n":
                out.add((k, q))
                continue
            nm = n.id if isinstance(n, ast.Name) else None
            if v and v[0] == "exc":
                cls = v[1]
            elif nm in RV:
                cls = nm
            elif nm in ("KeyboardInterrupt", "SystemExit", "BaseException"):
                cls = "BaseOther"
            elif nm:
                cls = "OtherException"
            else:
                raise GiveUp("raise of an unknown exception")
            out.add((("x", cls), self.fail(q, cls, s)))
        return out

    def fail(self, st, cls, node):
        if cls in RV:
            return st.set(failed=True, pending=self.line(node))
        return st.set(failed=True)

    def names(self, t):
        """exception classes of a handler clause"""
        if t is None:
            return {"BaseException"}
        if isinstance(t, ast.Tuple):
            r = set()
            for e in t.elts:
                r |= self.names(e)
            return r
        if isinstance(t, ast.Name):
            v = self.modconst(t.id)
            if v is not None:
                return self.names(v)
            return {t.id}
        if isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id in ("self", "cls"):
                v = self.clsconst(t.attr)
                if v is not None:
                    return self.names(v)
            return {t.attr}
        raise GiveUp("handler clause at %s" % self.line(t))

    def modconst(self, n):
        for s in self.stack[-1].mod.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets):
                return s.value
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == n:
                return s.value
        return None

    def clsconst(self, n):
        for c in (self.fv.cls.mro() if self.fv.cls else []):
            node = getattr(c, "node", None)
            for s in getattr(node, "body", []):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets):
                    return s.value
        return None

    def matches(self, cls, names):
        """True / False / None (maybe)"""
        if "BaseException" in names:
            return True
        if cls == "BaseOther":
            return None if names & {"KeyboardInterrupt", "SystemExit", "GeneratorExit"} else False
        if "Exception" in names:
            return True
        if cls in RV:
            if cls in names:
                return True
            return None if names - set(BUILTIN_EXC) else False
        if names - set(RV):
            return None
        return False

    def s_Try(self, s, st):
        res = self.block(s.body, {st})
        out = set()
        for k, q in res:
            if k == "n":
                out |= self.block(s.orelse, {q})
            elif isinstance(k, tuple):
                pend = True
                for h in s.handlers:
                    m = self.matches(k[1], self.names(h.type))
                    if m is False:
                        continue
                    z = q.set(exc=k[1])
                    if h.name:
                        z = z.put(self.var(h.name), ("exc", k[1]))
                    for kk, y in self.block(h.body, {z}):
                        out.add((kk, y.set(exc=st.exc)))
                    if m is True:
                        pend = False
                        break
                if pend:
                    out.add((k, q))
            else:
                out.add((k, q))
        if not s.finalbody:
            return out
        fin = set()
        for k, q in out:
            for kk, y in self.block(s.finalbody, {q}):
                fin.add((k, y) if kk == "n" else (kk, y))
        return fin
    s_TryStar = s_Try

    def s_With(self, s, st):
        states = {("n", st)}
        sup = []
        slotn = 0
        for it in s.items:
            e = it.context_expr
            if isinstance(e, ast.Call) and self.tail(e.func) == "suppress":
                ns = set()
                for a in e.args:
                    ns |= self.names(a)
                sup.append(ns)
                continue
            v = self.peek(e, st)
            if v == ("slot",):
                slotn += 1
                continue
            if isinstance(e, ast.Call) and self.tail(e.func) in ("catch_warnings", "errstate", "open", "closing", "nullcontext", "Timer"):
                continue
            if isinstance(e, (ast.Name, ast.Attribute)) and v in (None, TOP):
                continue
            raise GiveUp("context manager at %s" % self.line(s))
        out = set()
        for _, q in states:
            for k, y in self.block(s.body, {q}):
                if isinstance(k, tuple):
                    sw = [self.matches(k[1], ns) for ns in sup]
                    if any(x is not False for x in sw):
                        out.add(("n", y))
                    if not any(x is True for x in sw):
                        out.add((k, y))
                else:
                    out.add((k, y))
        return out

    def tail(self, f):
        return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None

    # --------------------------------------------------------- expressions
    def truth(self, v):
        if v is None or v == TOP:
            return None
        if v[0] == "c":
            return bool(v[1])
        if v[0] in ("exc", "self", "model", "slot", "queue", "def", "log"):
            return True
        if v[0] == "seq":
            return bool(v[1])
        return None

    def peek(self, e, st):
        r = list(self.ev(e, st))
        return r[0][2] if len(r) == 1 else TOP

    def ev(self, e, st):
        """-> set of (kind, state, value)"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, st)
        # generic: evaluate the parts for their effects
        return self.parts([c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)], st, lambda q, vs: TOP)

    def parts(self, es, st, f):
        cur = {(st, ())}
        out = set()
        for e in es:
            nxt = set()
            for q, vs in cur:
                for k, y, v in self.ev(e, q):
                    if k == "n":
                        nxt.add((y, vs + (v,)))
                    else:
                        out.add((k, y, TOP))
            cur = nxt
        return out | {("n", q, f(q, vs)) for q, vs in cur}

    def e_Constant(self, e, st):
        return {("n", st, ("c", e.value))}

    def e_Lambda(self, e, st):
        self.nodes[id(e)] = e
        return {("n", st, ("def", id(e), self.depth))}

    def _comp(self, e, st):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                v = None
                try:
                    v = self.peek(n.func, st)
                except GiveUp:
                    pass
                if v and v[0] in ("meth", "slotrel", "qput", "def"):
                    raise GiveUp("effects inside a comprehension at %s" % self.line(e))
        return {("n", st, TOP)}
    e_ListComp = e_SetComp = e_DictComp = e_GeneratorExp = _comp

    def e_Name(self, e, st):
        d = self.depth
        while d >= 0:
            v = st.get("%d:%s" % (d, e.id))
            if v is not None:
                return {("n", st, v)}
            d = self._free[d - 1] if d >= 1 else -1
        fv = self.repo.func(self.stack[-1].mod.name, e.id)
        if isinstance(fv, FuncV):
            return {("n", st, ("fn", fv))}
        return {("n", st, TOP)}

    _free = []

    def e_Attribute(self, e, st):
        out = set()
        for k, q, v in self.ev(e.value, st):
            if k != "n":
                out.add((k, q, TOP))
                continue
            out.add((k, q, self.attr(v, e.attr, q)))
        return out

    def attr(self, v, a, st):
        if v == ("self",):
            if a == self.model:
                return ("model",)
            if a == self.slot:
                return ("slot",)
            if a == self.queue:
                return ("queue",)
            x = st.get("self." + a)
            if x is not None:
                return x
            fv = self.fv.cls.find(a) if self.fv.cls else None
            if isinstance(fv, FuncV):
                return ("bound", fv)
            return TOP
        if v == ("model",):
            if a == "logger":
                return ("log",)
            return ("meth", a)
        if v == ("log",):
            return ("logm", a)
        if v == ("slot",):
            return ("slotrel",) if a == "release" else ("slotm", a)
        if v == ("queue",):
            return ("qput",) if a in ("put", "put_nowait") else TOP
        return TOP

    def e_NamedExpr(self, e, st):
        return {(k, self.bind(e.target, v, q) if k == "n" else q, v) for k, q, v in self.ev(e.value, st)}

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.parts([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, lambda q, vs: TOP)
        return self.parts(e.elts, st, lambda q, vs: ("seq", vs))
    e_List = e_Tuple

    def e_Dict(self, e, st):
        code = TOP
        for k, v in zip(e.keys, e.values):
            if isinstance(k, ast.Constant) and k.value == "code":
                if isinstance(v, ast.Constant):
                    code = ("c", v.value)
                else:
                    code = self.peek(v, st)
        return self.parts([v for v in e.values], st, lambda q, vs: ("msg", code if code and code[0] == "c" else TOP))

    def e_UnaryOp(self, e, st):
        def f(q, vs):
            b = self.truth(vs[0])
            return ("c", not b) if isinstance(e.op, ast.Not) and b is not None else TOP
        return self.parts([e.operand], st, f)

    def e_BoolOp(self, e, st):
        out = set()
        cur = {(st, None)}
        for i, x in enumerate(e.values):
            nxt = set()
            for q, _ in cur:
                for k, y, v in self.ev(x, q):
                    if k != "n":
                        out.add((k, y, TOP))
                        continue
                    b = self.truth(v)
                    last = i == len(e.values) - 1
                    stop = (b is False) if isinstance(e.op, ast.And) else (b is True)
                    go = (b is not False) if isinstance(e.op, ast.And) else (b is not True)
                    if last:
                        out.add(("n", y, v))
                    else:
                        if stop or b is None:
                            out.add(("n", y, v if b is not None else TOP))
                        if go:
                            nxt.add((y, v))
            cur = nxt
        return out

    def e_IfExp(self, e, st):
        out = set()
        for k, q, v in self.ev(e.test, st):
            if k != "n":
                out.add((k, q, TOP))
                continue
            b = self.truth(v)
            if b is not False:
                out |= self.ev(e.body, q)
            if b is not True:
                out |= self.ev(e.orelse, q)
        return out

    def e_Compare(self, e, st):
        def f(q, vs):
            if len(vs) != 2:
                return TOP
            a, b = vs
            op = e.ops[0]
            if b == ("c", None) and isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                pos = isinstance(op, (ast.Is, ast.Eq))
                if a and a[0] == "c":
                    return ("c", (a[1] is None) == pos)
                if self.truth(a) is True:
                    return ("c", not pos)
                return TOP
            if a and b and a[0] == "c" and b[0] == "c":
                try:
                    if isinstance(op, (ast.Is, ast.Eq)):
                        return ("c", a[1] == b[1])
                    if isinstance(op, (ast.IsNot, ast.NotEq)):
                        return ("c", a[1] != b[1])
                    if isinstance(op, ast.Lt):
                        return ("c", a[1] < b[1])
                    if isinstance(op, ast.Gt):
                        return ("c", a[1] > b[1])
                except TypeError:
                    pass
            return TOP
        return self.parts([e.left] + e.comparators, st, f)

    def e_Call(self, e, st):
        out = set()
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        for k, q, f in self.ev(e.func, st):
            if k != "n":
                out.add((k, q, TOP))
                continue
            cur = {(q, ())}
            for a in args:
                nxt = set()
                for y, vs in cur:
                    for kk, z, v in self.ev(a, y):
                        if kk == "n":
                            nxt.add((z, vs + (v,)))
                        else:
                            out.add((kk, z, TOP))
                cur = nxt
            for y, vs in cur:
                out |= self.call(f, e, vs, y)
        return out

    def call(self, f, e, vs, st):
        pos = vs[:len(e.args)]
        kws = {k.arg: v for k, v in zip(e.keywords, vs[len(e.args):])}
        if f and f[0] == "meth":
            nm = f[1]
            self.sites.add("%s %s()" % (self.line(e), nm))
            if nm == "finalize":
                y = st.set(fin=min(2, st.fin + 1))
            else:
                y = st
                if st.failed:
                    y = y.set(after=self.line(e) + " " + nm)
            out = {("n", y, TOP)}
            for x in RAISES:
                out.add((("x", x), self.fail(y, x, e), TOP))
            return out
        if f == ("slotrel",):
            self.sites.add("%s release()" % self.line(e))
            return {("n", st.set(rel=min(2, st.rel + 1)), TOP)}
        if f and f[0] == "slotm":
            if f[1] == "acquire":
                raise GiveUp("slot acquired inside the job")
            return {("n", st, TOP)}
        if f and f[0] == "logm":
            if f[1] in REPORT:
                return {("n", self.report(st, e, f[1] in ("error", "exception", "critical")), TOP)}
            return {("n", st, TOP)}
        if f == ("qput",):
            v = vs[0] if vs else TOP
            if v and v[0] == "msg" and v[1] and v[1][0] == "c":
                if v[1][1] == 0:
                    if st.failed and (st.pending or st.exc in RV):
                        return {("n", st.set(falsely="%s as a success, for a failure" % self.line(e)), TOP)}
                    return {("n", st, TOP)}
                return {("n", self.report(st, e, True), TOP)}
            return {("n", st.set(pending=None), TOP)}
        if f and f[0] == "bound":
            return self.inline(f[1], f[1].node, (("self",),) + pos, kws, st, -1)
        if f and f[0] == "fn":
            return self.inline(f[1], f[1].node, pos, kws, st, -1)
        if f and f[0] == "def":
            return self.inline(self.stack[-1], self.nodes[f[1]], pos, kws, st, f[2])
        # outside code: a model, slot or job handed to it cannot be followed
        for v in list(vs):
            if v in (("model",), ("slot",)) or v and v[0] in ("meth", "slotrel", "def", "bound"):
                if isinstance(e.func, ast.Name) and e.func.id in ("str", "repr", "print", "id", "type", "isinstance", "getattr", "hasattr"):
                    continue
                raise GiveUp("model or slot handed to outside code at %s" % self.line(e))
        if isinstance(e.func, ast.Name) and e.func.id == "dict" and "code" in kws:
            v = kws["code"]
            return {("n", st, ("msg", v if v and v[0] == "c" else TOP))}
        return {("n", st, TOP)}

    def report(self, st, e, sure):
        if sure and not st.failed:
            st = st.set(falsely="%s as an error, without a failure" % self.line(e))
        return st.set(pending=None)

    def inline(self, fv, node, pos, kws, st, outer):
        if len(self.stack) > 12:
            raise GiveUp("recursion")
        if getattr(node, "decorator_list", None):
            ds = [self.tail(d if not isinstance(d, ast.Call) else d.func) for d in node.decorator_list]
            if any(d not in ("staticmethod", "classmethod") for d in ds):
                raise GiveUp("decorated helper %s" % node.name)
            if "staticmethod" in ds:
                pos = pos[1:]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node)):
            raise GiveUp("generator helper")
        self.depth += 1
        self.stack.append(fv)
        self._free = self._free + [outer]
        saved = [(k, v) for k, v in st.env if k.startswith("%d:" % self.depth)]
        try:
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            q = st
            for i, n in enumerate(names):
                if i < len(pos):
                    v = pos[i]
                elif n in kws:
                    v = kws[n]
                else:
                    j = i - (len(names) - len(a.defaults))
                    v = self.peek(a.defaults[j], st) if 0 <= j < len(a.defaults) else TOP
                q = q.put(self.var(n), v)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                q = q.put(self.var(x.arg), kws.get(x.arg) or (self.peek(d, st) if d is not None else TOP))
            if a.vararg:
                q = q.put(self.var(a.vararg.arg), ("seq", tuple(pos[len(names):])))
            if a.kwarg:
                q = q.put(self.var(a.kwarg.arg), TOP)
            out = set()
            if isinstance(node, ast.Lambda):
                rs = self.ev(node.body, q)
                for k, y, v in rs:
                    out.add((k, self.pop(y, saved), v))
            else:
                for k, y in self.block(node.body, {q}):
                    v = y.get(self.var("$ret")) if k == "r" else ("c", None)
                    out.add(("n" if k in ("n", "r") else k, self.pop(y, saved), v if v is not None else TOP))
            return out
        finally:
            self.depth -= 1
            self.stack.pop()
            self._free = self._free[:-1]

    def pop(self, st, saved):
        p = "%d:" % self.depth
        return st.set(env=tuple(sorted([(k, v) for k, v in st.env if not k.startswith(p)] + saved, key=lambda p: p[0])))


BUILTIN_EXC = ("RuntimeError", "ValueError", "KeyError", "OSError", "IOError", "TypeError", "IndexError", "AttributeError", "MemoryError",
               "FileNotFoundError", "PermissionError", "ArithmeticError", "ZeroDivisionError", "FloatingPointError", "OverflowError",
               "AssertionError", "KeyboardInterrupt", "SystemExit", "StopIteration", "NotImplementedError", "RecursionError",
               "UnicodeError", "LookupError", "FileExistsError", "Exception", "BaseException")
