"""Interprocedural value-flow analysis (abstract interpretation over the AST).

Values are hash-consed terms (sa.terms); control joins build gated selections,
so a function body is summarised in one pass without enumerating its paths;
loops are summarised by one symbolic iteration over havocked loop-carried
locations.  Calls inside the package are inlined, everything else becomes an
uninterpreted application plus an event.
"""
import ast
from fractions import Fraction

from .terms import *          # noqa
from . import terms as TM
from .repo import FuncV, PropV, ClassV, ExtV, ModV, Mod


class Ref:
    __slots__ = ("id", "kind")

    def __init__(self, id, kind):
        self.id = id
        self.kind = kind

    def __repr__(self):
        return "<%s#%d>" % (self.kind, self.id)


class ArrRec:
    __slots__ = ("content", "shape")

    def __init__(self, content, shape=None):
        self.content = content
        self.shape = shape


class ObjRec:
    __slots__ = ("cls", "fields", "lazy")

    def __init__(self, cls, fields, lazy):
        self.cls = cls
        self.fields = fields
        self.lazy = lazy


class ListRec:
    __slots__ = ("items", "sym")      # items: tuple of values, or None with sym term

    def __init__(self, items, sym=None):
        self.items = items
        self.sym = sym


class DictRec:
    __slots__ = ("entries", "base")   # entries {key: (presence T, value)}; base: T or None

    def __init__(self, entries, base=None):
        self.entries = entries
        self.base = base


class BoundV:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class MethV:
    """method of a builtin container / array / external term"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class SuperV:
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class ViewV:
    """keys/items/values view of a dict ref; flat iterator of an array"""
    __slots__ = ("ref", "kind")

    def __init__(self, ref, kind):
        self.ref = ref
        self.kind = kind


class PartV:
    """basic slice of an array held by name: a window, not a copy"""
    __slots__ = ("ref", "path")

    def __init__(self, ref, path):
        self.ref = ref
        self.path = path

    def __eq__(self, o):
        return isinstance(o, PartV) and o.ref.id == self.ref.id and o.path is self.path

    def __hash__(self):
        return hash((self.ref.id, id(self.path)))


class IterV:
    """concrete: items list of (presence, value); symbolic: mk(elem)->value"""
    __slots__ = ("items", "make", "desc")

    def __init__(self, items=None, make=None, desc=None):
        self.items = items
        self.make = make
        self.desc = desc


class St:
    __slots__ = ("env", "heap", "pc", "dead")

    def __init__(self, env, heap, pc=(), dead=False):
        self.env = env
        self.heap = heap
        self.pc = pc
        self.dead = dead

    def clone(self):
        return St(dict(self.env), dict(self.heap), self.pc, self.dead)

    def assume(self, c):
        c = truth(c)
        if c is TRUE:
            return
        if c is FALSE:
            self.dead = True
            return
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        if c in self.pc:
            return
        if not_(c) in self.pc:
            self.dead = True
            return
        self.pc = self.pc + (c,)


class Event:
    __slots__ = ("seq", "kind", "name", "data", "pc", "loops", "where", "fn", "stack", "line", "jit", "args", "kwargs")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, self.name, self.where)


MUTATORS = {"append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "remove", "add", "sort", "reverse", "fill"}


_GLOBALS = {}
MEMO = {"lru_cache", "cache", "cached_property", "memoize", "cached"}


def memo_of(fn):
    from .repo import deco_name
    return any(deco_name(d) in MEMO for d in getattr(fn, "decorator_list", ()))


_STORED = {}


def stored_names(fn):
    """local names of a function that it stores into (x[...] = v, x += v, x.fill(v)); parameters and variables alike"""
    if id(fn) not in _STORED:
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "fill" and \
                    isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
        _STORED[id(fn)] = (fn, out)
    return _STORED[id(fn)][1]


def sliced(n):
    return isinstance(n, ast.Subscript) and any(isinstance(x, ast.Slice) for x in (
        n.slice.elts if isinstance(n.slice, ast.Tuple) else (n.slice,)))


def declared_global(fn):
    if id(fn) not in _GLOBALS:
        _GLOBALS[id(fn)] = (fn, {x for n in ast.walk(fn) if isinstance(n, ast.Global) for x in n.names})
    return _GLOBALS[id(fn)][1]


def written_by_functions(tree, name):
    """some function of the module writes into the container called name (as a variable or as an attribute)"""
    def is_(n):
        return isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.Lambda)):
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and is_(n.value):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and is_(n.func.value):
                return True
            if isinstance(n, ast.Global) and name in n.names:
                return True
            if isinstance(n, ast.AugAssign) and is_(n.target):
                return True
    return False


class Loop:
    def __init__(self, lid, node, where):
        self.id = lid
        self.node = node
        self.where = where
        self.phi = {}       # loc -> phi term
        self.init = {}
        self.next = {}
        self.cond = None
        self.iter = None
        self.elem = None
        self.ev0 = self.ev1 = 0
        self.outer = ()
        self.fn = None
        self.guard = ()
        self.body_pc = ()
        self.exits = []
        self.out = {}


class Exc:
    __slots__ = ("st", "cls", "val", "node", "where")

    def __init__(self, st, cls, val, node, where):
        self.st = st
        self.cls = cls
        self.val = val
        self.node = node
        self.where = where


class Frame:
    def __init__(self, fv, st, selfv=None):
        self.fv = fv
        self.st = st
        self.selfv = selfv
        self.rets = []
        self.entry_pc = st.pc


class Blow(Exception):
    pass


PURE_PREFIX = ("os.path.", "math.", "pathlib.", "re.", "itertools.", "platform.", "numpy.",
               "string.", "typing.", "copy.", "functools.", "operator.", "collections.")
PURE_METHODS = {"join", "format", "format_map", "zfill", "strip", "split", "startswith", "endswith", "replace",
                "lower", "upper", "ljust", "rjust", "isunlimited", "ncattrs", "getncattr", "keys",
                "items", "values", "get", "is_dir", "is_file", "exists", "ravel", "flatten", "copy",
                "sum", "any", "all", "mean", "max", "min", "take", "tolist", "item", "astype",
                "reshape", "nonzero", "cumsum", "transpose", "round", "clip", "argmax", "argmin",
                "prod", "std", "encode", "decode", "count", "index", "with_suffix", "as_posix", "resolve",
                "absolute", "title", "isdigit", "squeeze"}


FRESH = {"lt", "le", "eq", "not", "and", "or", "add", "mul", "div", "pow", "min", "max", "abs"}


class Interp:
    def __init__(self, repo, cfg_types=None, max_events=400000):
        self.repo = repo
        self.unroll = (64, 300)     # turns a counted range, a literal list is followed one by one
        self.events = []
        self.loops = {}
        self.dtypes = {}      # array id -> element type it was created with
        self.narrowed = set() # scalar values that went through a conversion to single precision
        self.rewritten = {}   # loops in their plain form
        self.shares = {}      # array id -> (array whose memory it uses, item for item)
        self.nid = 0
        self.nlid = 0
        self.next_ext = 0
        self.lazy = {}          # (objid, attr) -> (refid, rec)
        self.sink = [[]]        # exceptional exits
        self.stack = []         # call stack of FuncV
        self.loopstack = []
        self.modcache = {}
        self.modheap = {}
        self.sym_types = cfg_types or {}
        self.warnings = []
        self.unmodelled = []
        self.dispatch_override = {}   # method name -> python handler
        self.ext_override = {}        # external function -> python handler
        self.max_events = max_events
        self.steps = 0
        self.attr_reads = set()
        self.try_marks = []
        self.calls = 0
        self.exit_conds = set()

    # ------------------------------------------------------------ heap
    def newid(self):
        self.nid += 1
        return self.nid

    def new_arr(self, st, content, shape=None, dtype=None):
        i = self.newid()
        if dtype is not None:
            self.dtypes[i] = dtype
        st.heap[i] = ArrRec(content, shape)
        return Ref(i, "arr")

    def new_list(self, st, items=None, sym_=None):
        i = self.newid()
        st.heap[i] = ListRec(tuple(items) if items is not None else None, sym_)
        return Ref(i, "list")

    def new_dict(self, st, entries=None, base=None):
        i = self.newid()
        st.heap[i] = DictRec(dict(entries or {}), base)
        return Ref(i, "dict")

    def new_obj(self, st, cls, lazy=None, fields=None):
        i = self.newid()
        st.heap[i] = ObjRec(cls, dict(fields or {}), lazy)
        return Ref(i, "obj")

    def rec(self, st, ref):
        r = st.heap.get(ref.id)
        if r is None:
            for (o, a), (rid, rr, rf) in self.lazy.items():
                if rid == ref.id:
                    st.heap[ref.id] = rr
                    return rr
            if ref.id in self.modheap:
                st.heap[ref.id] = self.modheap[ref.id]
                return st.heap[ref.id]
            raise Blow("dangling ref %r" % ref)
        return r

    # ------------------------------------------------------------ events
    def where(self, node):
        fv = self.stack[-1] if self.stack else None
        return "%s:%s" % (fv.mod.path if fv else "?", getattr(node, "lineno", "?"))

    def emit(self, kind, name, node, st, data=None, args=None, kwargs=None):
        if len(self.events) > self.max_events:
            raise Blow("event limit")
        fv = self.stack[-1] if self.stack else None
        e = Event(seq=len(self.events), kind=kind, name=name, data=data, pc=st.pc,
                  loops=tuple(self.loopstack), where=self.where(node),
                  fn=fv, stack=tuple(self.stack), line=getattr(node, "lineno", 0),
                  jit=bool(fv and fv.jit), args=args, kwargs=kwargs)
        self.events.append(e)
        return e

    def ext(self, name, *args, kind="s"):
        self.next_ext += 1
        return mk("ext", self.next_ext, name, *args)

    # ---------------------------------------------------------- to terms
    def term(self, v, st):
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            if v.kind == "arr":
                return self.rec(st, v).content
            if v.kind == "obj":
                return mk("obj", v.id)
            r = self.rec(st, v)
            if v.kind == "list":
                if r.items is not None:
                    return mk("list", *[self.term(x, st) for x in r.items])
                return r.sym
            if v.kind == "dict":
                parts = []
                for k, (p, x) in r.entries.items():
                    parts.append(mk("kv", self.term(k, st) if not isinstance(k, str) else C(k), p, self.term(x, st)))
                return mk("dict", r.base if r.base is not None else NONE, *parts)
        if isinstance(v, tuple):
            return mk("tuple", *[self.term(x, st) for x in v])
        if isinstance(v, PartV):
            return idx(self.rec(st, v.ref).content, v.path)
        if isinstance(v, FuncV):
            return mk("fn", v.qual)
        if isinstance(v, ClassV):
            return mk("fn", "class:" + v.name)
        if isinstance(v, BoundV):
            return mk("fn", v.func.qual)
        if isinstance(v, ExtV):
            return mk("fn", "ext:" + v.name)
        if isinstance(v, ViewV):
            if isinstance(v.ref, Ref) and v.kind == "flat":
                return self.term(v.ref, st)
            return mk("app", "view." + v.kind, self.term(v.ref, st))
        if isinstance(v, MethV):
            return mk("app", "method." + v.name, self.term(v.recv, st))
        if isinstance(v, IterV):
            if v.items is not None:
                return mk("list", *[self.term(x, st) for p, x in v.items])
            return v.desc if isinstance(v.desc, T) else unk("iter")
        if isinstance(v, ModV):
            return mk("fn", "mod:" + v.mod.name)
        if isinstance(v, SuperV):
            return unk("super")
        if v is None:
            return NONE
        return unk("value:" + type(v).__name__)

    # ------------------------------------------------------------- merging
    def merge_val(self, c, a, b, sa, sb, out):
        if a is b or isinstance(a, PartV) and a == b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, sa, sb, out) for x, y in zip(a, b))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind:
            ra, rb = self.rec(sa, a), self.rec(sb, b)
            if a.kind == "obj":
                if ra.cls is rb.cls:
                    i = self.newid()
                    fields = {}
                    for k in list(ra.fields) + [k for k in rb.fields if k not in ra.fields]:
                        fields[k] = self.merge_val(c, ra.fields.get(k, UNDEF), rb.fields.get(k, UNDEF), sa, sb, out)
                    out.heap[i] = ObjRec(ra.cls, fields, ra.lazy or rb.lazy)
                    return Ref(i, "obj")
            else:
                i = self.newid()
                out.heap[i] = self.merge_rec(c, ra, rb, sa, sb, out)
                return Ref(i, a.kind)
        if isinstance(a, (FuncV, ClassV, ExtV, ModV)) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.func is b.func:
            return a
        # array on one side, scalar/undef on the other
        if isinstance(a, Ref) and a.kind == "arr" and b is UNDEF:
            return a
        if isinstance(b, Ref) and b.kind == "arr" and a is UNDEF:
            return b
        if isinstance(a, Ref) and a.kind == "arr" or isinstance(b, Ref) and b.kind == "arr":
            ta, tb = self.term(a, sa), self.term(b, sb)
            i = self.newid()
            out.heap[i] = ArrRec(sel(c, ta, tb))
            return Ref(i, "arr")
        if not isinstance(a, T) and b is UNDEF:
            return a
        if not isinstance(b, T) and a is UNDEF:
            return b
        return sel(c, self.term(a, sa), self.term(b, sb))

    def merge_rec(self, c, ra, rb, sa, sb, out):
        if ra is rb:
            return ra
        if isinstance(ra, ArrRec):
            return ArrRec(sel(c, ra.content, rb.content), ra.shape if ra.shape is rb.shape else None)
        if isinstance(ra, ListRec):
            if ra.items is not None and rb.items is not None and len(ra.items) == len(rb.items):
                return ListRec(tuple(self.merge_val(c, x, y, sa, sb, out) for x, y in zip(ra.items, rb.items)))
            ta = mk("list", *[self.term(x, sa) for x in ra.items]) if ra.items is not None else ra.sym
            tb = mk("list", *[self.term(x, sb) for x in rb.items]) if rb.items is not None else rb.sym
            return ListRec(None, sel(c, ta, tb))
        if isinstance(ra, DictRec):
            ent = {}
            for k in list(ra.entries) + [k for k in rb.entries if k not in ra.entries]:
                pa, va = ra.entries.get(k, (None, UNDEF))
                pb, vb = rb.entries.get(k, (None, UNDEF))
                if pa is None:
                    pa, va = self._dict_default(ra, k)
                if pb is None:
                    pb, vb = self._dict_default(rb, k)
                if va is UNDEF:
                    ent[k] = (sel(c, pa, pb), vb)
                elif vb is UNDEF:
                    ent[k] = (sel(c, pa, pb), va)
                else:
                    ent[k] = (sel(c, pa, pb), self.merge_val(c, va, vb, sa, sb, out))
            base = ra.base if ra.base is rb.base else sel(c, ra.base or NONE, rb.base or NONE)
            return DictRec(ent, base)
        if isinstance(ra, ObjRec):
            f = {}
            for k in list(ra.fields) + [k for k in rb.fields if k not in ra.fields]:
                va = ra.fields.get(k)
                vb = rb.fields.get(k)
                if va is None:
                    va = self.lazy_field_init(sa, out, ra, k)
                if vb is None:
                    vb = self.lazy_field_init(sb, out, rb, k)
                f[k] = self.merge_val(c, va, vb, sa, sb, out)
            return ObjRec(ra.cls, f, ra.lazy)
        return ra

    def _dict_default(self, r, k):
        if r.base is None:
            return FALSE, UNDEF
        kt = C(k) if isinstance(k, str) else k
        return app("in", kt, r.base), mk("idx", r.base, kt)

    def lazy_field_init(self, st, out, r, k):
        if r.lazy is None:
            return UNDEF
        ent = self.lazy_entry(r.lazy, k)
        rid, rr, v = ent
        if rid is not None:
            st.heap.setdefault(rid, rr)
            out.heap.setdefault(rid, rr)
        return v

    def merge(self, c, a, b):
        """state equal to a where c holds, to b elsewhere"""
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        out = St({}, {}, (), False)
        ids = set(a.heap) | set(b.heap)
        out.heap.update(b.heap)
        out.heap.update(a.heap)
        for i in ids:
            ra, rb = a.heap.get(i), b.heap.get(i)
            if ra is rb:
                continue
            if ra is None or rb is None:
                # lazily created in one branch only: initial value in the other
                li = self.lazy_by_id(i)
                if li is None:
                    continue
                ra = ra or li
                rb = rb or li
            out.heap[i] = self.merge_rec(c, ra, rb, a, b, out)
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            out.env[k] = self.merge_val(c, a.env.get(k, UNDEF), b.env.get(k, UNDEF), a, b, out)
        common = tuple(x for x in a.pc if x in b.pc)
        ra_ = [x for x in a.pc if x not in common]
        rb_ = [x for x in b.pc if x not in common]
        ga, gb = and_(*ra_), and_(*rb_)
        g = or_(ga, gb)
        out.pc = common
        if g is not TRUE and not (ga is not_(gb)):
            # factor c: (c & x) | (~c & y)
            out.assume(g)
        return out

    def lazy_by_id(self, i):
        for (o, a), (rid, rr, v) in self.lazy.items():
            if rid == i:
                return rr
        return None

    # ----------------------------------------------------------- attributes
    def lazy_entry(self, owner, name):
        """the value an attribute has before anything was assigned to it"""
        ent = self.lazy.get((owner, name))
        if ent is None:
            full = "%s.%s" % (owner, name)
            if name in self.repo.array_attrs:
                rid = self.newid()
                ent = (rid, ArrRec(sym(full, "m" if name in self.repo.mask_attrs else "a"), mk("shape", full)), Ref(rid, "arr"))
            else:
                ent = (None, None, sym(full, self.sym_types.get(full, self.sym_types.get(name, "s"))))
            self.lazy[(owner, name)] = ent
        return ent

    def get_field(self, st, ref, name, node, create=True):
        r = self.rec(st, ref)
        if name in r.fields:
            return r.fields[name]
        if r.lazy is not None and create:
            rid, rr, v = self.lazy_entry(r.lazy, name)
            if rid is not None and rid not in st.heap:
                st.heap[rid] = rr
            f = dict(r.fields)
            f[name] = v
            st.heap[ref.id] = ObjRec(r.cls, f, r.lazy)
            return v
        return None

    def getattr(self, v, name, fr, node):
        st = fr.st
        if isinstance(v, Ref) and v.kind == "obj":
            r = self.rec(st, v)
            if r.cls is not None:
                if name == "__class__":
                    return r.cls
                m = r.cls.find(name)
                if isinstance(m, PropV):
                    if m.getter is None:
                        return unk("prop")
                    return self.call_func(m.getter, [v], {}, fr, node)
                if name in r.fields:
                    self.attr_reads.add((r.lazy, name))
                    return r.fields[name]
                if isinstance(m, FuncV):
                    if m.kind == "static":
                        return m
                    return BoundV(m, r.cls if m.kind == "class" else v)
                if isinstance(m, tuple) and m[0] == "expr":
                    return self.once(m[1], r.cls.mod, name, fr)
            self.attr_reads.add((r.lazy, name))
            x = self.get_field(st, v, name, node)
            if x is None:
                # external base class method?
                if r.cls is not None and any(isinstance(b, ExtV) and b.name not in ("object", "abc.ABC", "ABC")
                                             for b in r.cls.mro()):
                    return MethV(v, name)
                return UNDEF
            return x
        if isinstance(v, Ref) and v.kind == "arr":
            r = self.rec(st, v)
            if name == "shape":
                return self.shape_of(v, st)
            if name == "flat":
                return ViewV(v, "flat")
            if name == "size":
                return app("size", r.shape if r.shape is not None else r.content)
            if name == "T":
                return mk("aapp", "T", r.content)
            if name == "dtype":
                return app("dtype", r.content)
            if name == "ndim":
                return app("ndim", r.content)
            return MethV(v, name)
        if isinstance(v, Ref):
            return MethV(v, name)
        if isinstance(v, ModV):
            x = self.repo.resolve(v.mod, name)
            if x is None:
                return unk("modattr:" + name)
            return self.modvalue(x, v.mod, name, fr)
        if isinstance(v, ExtV):
            return self.ext_attr(v.name + "." + name)
        if isinstance(v, ClassV):
            m = v.find(name)
            if isinstance(m, FuncV):
                return BoundV(m, v) if m.kind == "class" else m
            if isinstance(m, tuple) and m[0] == "expr":
                return self.once(m[1], v.mod, name, fr)
            if name == "__name__":
                return C(v.name)
            if isinstance(m, PropV):
                return m
            return unk("clsattr")
        if isinstance(v, PropV):
            if name == "fget":
                return v.getter
            if name == "fset":
                return v.setter
            return unk("prop")
        if isinstance(v, SuperV):
            m = self.super_find(v, name, st)
            if isinstance(m, FuncV):
                return BoundV(m, v.self)
            return MethV(v, name)
        if isinstance(v, ViewV):
            return MethV(v, name)
        if isinstance(v, T):
            if name == "size" and v.op == "idx" and v.args[0].op == "where1" and v.args[1].op == "c":
                return app("len", v)
            if name == "shape" and v.op == "idx" and v.args[0].op == "where1" and v.args[1].op == "c":
                return mk("tuple", app("len", v))
            if name == "shape" and is_array(v):
                return app("shape", v)
            if name == "flat":
                return ViewV(v, "flat")
            if name in ("T",):
                return mk("aapp", "T", v)
            if v.op in ("tuple", "list", "c", "app", "sel", "aapp") or is_array(v) or name in PURE_METHODS:
                return MethV(v, name)
            return mk("attr", v, name)
        if isinstance(v, FuncV) and name == "__name__":
            return C(v.name)
        return MethV(v, name)

    def super_find(self, v, name, st):
        cls = v.self.cls if isinstance(v.self, ClassV) else self.rec(st, v.self).cls
        return cls.find(name, after=v.cls)

    def ext_attr(self, name):
        consts = {"numpy.pi": mk("app", "pi"), "numpy.inf": INF, "math.inf": INF, "math.pi": mk("app", "pi"),
                  "numpy.nan": mk("app", "nan"), "sys.version": mk("app", "sys.version")}
        if name in consts:
            return consts[name]
        return ExtV(name)

    def shape_of(self, v, st):
        r = self.rec(st, v)
        if r.shape is not None and isinstance(r.shape, T):
            return r.shape
        return app("shape", _shape_base(r.content))

    def setattr(self, obj, name, v, fr, node):
        st = fr.st
        if isinstance(obj, Ref) and obj.kind == "arr" and name in ("shape", "dtype", "strides", "flat"):
            t = self.term(v, st)
            self.setitem(obj, mk("slice", NONE, NONE, NONE), t if name == "flat" else
                         mk("aapp", "with." + name, self.term(obj, st), t), fr, node)
            return
        if isinstance(obj, Ref) and obj.kind == "obj":
            r = self.rec(st, obj)
            if r.cls is not None:
                m = r.cls.find(name)
                if isinstance(m, PropV):
                    if m.setter is None:
                        self.emit("raise", "AttributeError", node, st)
                        self.raise_(fr, "AttributeError", unk("readonly"), node)
                        return
                    self.call_func(m.setter, [obj, v], {}, fr, node)
                    return
            old = r.fields.get(name)
            if isinstance(v, T) and v.op == "idx" and isinstance(v.args[0], T) and v.args[0].op == "ckpt" \
                    and isinstance(old, Ref) and old.kind == "arr":
                v = self.new_arr(st, v)     # an array read from a file: later stores go into it
            r = self.rec(st, obj)
            f = dict(r.fields)
            f[name] = v
            st.heap[obj.id] = ObjRec(r.cls, f, r.lazy)
            self.emit("setattr", name, node, st, data=(obj, v, old, self.term(v, st)))
            if isinstance(v, Ref) and v.kind == "arr":
                two = [k for k, x in f.items() if k != name and isinstance(x, Ref) and x.kind == "arr" and x.id == v.id]
                if two:
                    self.emit("alias", name, node, st, data=(obj, two))
            return
        if isinstance(obj, (ClassV, ModV)):
            self.emit("globalset", name, node, st, data=(None, C(name), self.term(v, st)))
        self.emit("extsetattr", name, node, st, data=(self.term(obj, st), self.term(v, st)))

    # --------------------------------------------------------------- modules
    def modvalue(self, x, mod, name, fr):
        if isinstance(x, tuple) and x[0] == "expr":
            # find the defining module
            key = (mod.name, name)
            if key not in self.modcache:
                m2, e2 = self._defmod(mod, name)
                v = self.modcache[key] = self.eval_expr_in(e2, m2, fr)
                if isinstance(v, Ref) and v.kind in ("dict", "list", "arr"):
                    self.shared_value(v, m2, key[1], fr.st)
                elif isinstance(v, T) and any(name in declared_global(f) for f in ast.walk(m2.tree) if isinstance(f, ast.FunctionDef)):
                    self.modcache[key] = unk("value of %s.%s, which earlier calls set" % (m2.name, name))
            v = self.modcache[key]
            if isinstance(v, Ref) and v.id in self.modheap:
                self.rec(fr.st, v)
            return v
        return x

    def once(self, expr, mod, name, fr):
        """an expression evaluated when the module is loaded (class attribute, default argument): one object for all calls"""
        key = ("once", id(expr))
        if key not in self.modcache:
            v = self.eval_expr_in(expr, mod, fr)
            if not (isinstance(v, Ref) and v.kind in ("dict", "list", "arr")):
                return v
            self.modcache[key] = v
            self.shared_value(v, mod, name, fr.st)
        v = self.modcache[key]
        self.rec(fr.st, v)
        return v

    def shared_value(self, v, mod, name, st):
        """a container of a module or class: where functions write into it, what it holds depends on everything run before"""
        if name is not None and written_by_functions(mod.tree, name):
            u = unk("contents of %s.%s, which earlier calls wrote" % (mod.name, name))
            st.heap[v.id] = DictRec({}, u) if v.kind == "dict" else ListRec(None, u) if v.kind == "list" else ArrRec(u, None)
        self.modheap[v.id] = st.heap[v.id]

    def _defmod(self, mod, name):
        v = mod.ns.get(name)
        if isinstance(v, tuple) and v[0] == "from":
            mm = self.repo.mods.get(v[1].split(".")[-1])
            if mm is not None:
                return self._defmod(mm, v[2])
        return mod, v[1]

    def eval_expr_in(self, expr, mod, fr):
        st = St({}, fr.st.heap, fr.st.pc)
        f2 = Frame(FuncV(expr, mod), st)
        self.stack.append(f2.fv)
        try:
            return self.ev(expr, f2)
        finally:
            self.stack.pop()

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        """returns dict of break/continue lists; normal continuation is fr.st"""
        brk, cont = [], []
        for s in stmts:
            if fr.st.dead:
                break
            self.steps += 1
            if self.steps > 3000000:
                raise Blow("step limit")
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.unmodelled.append((type(s).__name__, self.where(s)))
                continue
            r = m(s, fr)
            if r:
                brk += r[0]
                cont += r[1]
        return brk, cont

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        pass
    s_Nonlocal = s_Global

    def s_Import(self, s, fr):
        for a in s.names:
            fr.st.env[a.asname or a.name.split(".")[0]] = ExtV(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, fr):
        base = s.module or ""
        for a in s.names:
            nm = a.asname or a.name
            if s.level > 0:
                if base == "" and a.name in self.repo.mods:
                    fr.st.env[nm] = ModV(self.repo.mods[a.name])
                elif base in self.repo.mods:
                    v = self.repo.resolve(self.repo.mods[base], a.name)
                    fr.st.env[nm] = self.modvalue(v, self.repo.mods[base], a.name, fr) if v is not None else unk("import")
                else:
                    fr.st.env[nm] = unk("import")
            else:
                fr.st.env[nm] = ExtV(base + "." + a.name)

    def s_Assert(self, s, fr):
        c = truth(self.term(self.ev(s.test, fr), fr.st))
        # an assertion of an external fact: remembered as an exit, then assumed
        st2 = fr.st.clone()
        st2.assume(not_(c))
        if not st2.dead:
            self.add_exc(st2, "AssertionError", NONE, s, explicit=True)
        fr.st.assume(c)

    def s_FunctionDef(self, s, fr):
        from .repo import deco_name, JIT_NAMES
        jit = any(deco_name(d) in JIT_NAMES for d in s.decorator_list) or fr.fv.jit
        f = FuncV(s, fr.fv.mod, None, jit, closure=fr)
        fr.st.env[s.name] = f

    def s_ClassDef(self, s, fr):
        fr.st.env[s.name] = unk("localclass")

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        if fr.st.dead:
            return
        fr.rets.append((fr.st.clone(), v))
        fr.st.dead = True

    def s_Raise(self, s, fr):
        if s.exc is None:
            cls, v = getattr(fr, "cur_exc", ("reraise", NONE))
        else:
            v = None
            cls = None
            if isinstance(s.exc, ast.Call):
                cls = ast.unparse(s.exc.func)
                args = [self.ev(a.value if isinstance(a, ast.Starred) else a, fr) for a in s.exc.args]
                v = mk("app", "exc." + cls, *[self.term(a, fr.st) for a in args])
            else:
                v = self.ev(s.exc, fr)
                if isinstance(v, ExtV):
                    cls = v.name
                elif isinstance(v, T) and v.op == "excvar":
                    cls = v.args[0]
                elif isinstance(s.exc, ast.Name):
                    cls = s.exc.id
                else:
                    cls = "Exception"
                v = self.term(v, fr.st)
        if fr.st.dead:
            return
        self.emit("raise", cls, s, fr.st, data=v)
        self.raise_(fr, cls, v, s)

    def raise_(self, fr, cls, v, node):
        self.add_exc(fr.st.clone(), cls, v, node, explicit=True)
        fr.st.dead = True

    def add_exc(self, st, cls, v, node, explicit=True):
        self.sink[-1].append(Exc(st, cls, v, node, self.where(node)))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                if isinstance(b, Ref) and b.kind == "dict":
                    self.dict_del(b, k, fr, t)
                else:
                    self.emit("extdel", "del", t, fr.st, data=(self.term(b, fr.st), self.term(k, fr.st)))
            elif isinstance(t, ast.Name):
                fr.st.env[t.id] = UNDEF
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr)
                if isinstance(b, Ref) and b.kind == "obj":
                    r = self.rec(fr.st, b)
                    f = dict(r.fields)
                    f[t.attr] = UNDEF
                    fr.st.heap[b.id] = ObjRec(r.cls, f, r.lazy)
                    self.emit("setattr", t.attr, t, fr.st, data=(b, UNDEF, None, UNDEF))

    def windowed(self, t, n, fr):
        """value of n as assigned to t; a slice of an array that is later stored into stays a window on it"""
        if isinstance(t, ast.Name) and sliced(n) and t.id in stored_names(fr.fv.node):
            return self.window(n, fr)
        if isinstance(t, ast.Tuple) and isinstance(n, ast.Tuple) and len(t.elts) == len(n.elts) and \
                not any(isinstance(x, ast.Starred) for x in t.elts + n.elts):
            return tuple(self.windowed(x, y, fr) for x, y in zip(t.elts, n.elts))
        return self.ev(n, fr)

    def window(self, n, fr):
        o = self.ev(n.value, fr)
        i = self.index(n.slice, fr)
        v = self.getitem(o, i, fr, n)
        if isinstance(o, Ref) and o.kind == "arr" and isinstance(v, T):
            it = self.term(i, fr.st)
            parts = it.args if it.op == "tuple" else (it,)
            if any(a.op == "slice" for a in parts) and not any(is_array(a) or is_bool(a) for a in parts):
                if it.op != "tuple" and self.two_axes(self.rec(fr.st, o)):
                    it = mk("tuple", it, mk("slice", NONE, NONE, NONE))
                return PartV(o, it)
        return v

    def through(self, w, it):
        """path, in the array itself, of the item it of a window; None where not known"""
        if full_slice(it):
            return w.path
        parts = w.path.args if w.path.op == "tuple" else (w.path,)
        own = [k for k, a in enumerate(parts) if a.op == "slice"]
        sub = it.args if it.op == "tuple" else (it,)
        if len(sub) > len(own):
            return None
        new = list(parts)
        for k, a in zip(own, sub):
            if full_slice(a):
                continue
            if not full_slice(parts[k]):
                return None
            new[k] = a
        return mk("tuple", *new) if w.path.op == "tuple" else new[0]

    def s_Assign(self, s, fr):
        v = self.windowed(s.targets[0], s.value, fr) if len(s.targets) == 1 else self.ev(s.value, fr)
        if fr.st.dead:
            return
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            v = self.ev(s.value, fr)
            if not fr.st.dead:
                self.assign(s.target, v, fr)

    def assign(self, t, v, fr):
        st = fr.st
        if isinstance(t, ast.Name):
            if isinstance(v, T) and v.op in FRESH and is_array(v):
                v = self.new_arr(st, v)      # an element-wise operation makes a new array
            st.env[t.id] = v
            if t.id in declared_global(fr.fv.node):
                self.emit("globalset", t.id, t, st, data=(None, C(t.id), self.term(v, st)))
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), fr, t)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, fr)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr(o, t.attr, v, fr, t)
            return
        if isinstance(t, ast.Subscript):
            o = self.held(t.value, fr)
            i = self.index(t.slice, fr)
            self.setitem(o, i, v, fr, t)
            return
        self.unmodelled.append(("assign", self.where(t)))

    def held(self, n, fr):
        """what an expression stands for as the target of a store"""
        if isinstance(n, ast.Name) and isinstance(fr.st.env.get(n.id), PartV):
            return fr.st.env[n.id]
        return self.ev(n, fr)

    def unpack(self, v, n, fr, node):
        if isinstance(v, tuple):
            vals = list(v)
        elif isinstance(v, Ref) and v.kind == "list" and self.rec(fr.st, v).items is not None:
            vals = list(self.rec(fr.st, v).items)
        else:
            t = self.term(v, fr.st)
            if t.op in ("tuple", "list", "arr"):
                vals = list(t.args)
            else:
                vals = [idx(t, C(k)) for k in range(n)]
        while len(vals) < n:
            vals.append(unk("unpack"))
        return vals

    def setitem(self, o, i, v, fr, node):
        st = fr.st
        if isinstance(o, Ref) and o.kind == "dict":
            self.dict_set(o, i, v, fr, node)
            return
        it = self.term(i, st)
        vt = self.term(v, st)
        if isinstance(o, Ref) and o.kind == "arr":
            r = self.rec(st, o)
            old = r.content
            new = store(old, it, vt)
            st.heap[o.id] = ArrRec(new, r.shape)
            self.shared(o, it, v, fr, node)
            self.emit("store", "arr", node, st, data=(o, it, vt, old, new))
            return
        if isinstance(o, PartV):
            path = self.through(o, it)
            self.setitem(o.ref, path if path is not None else mk("view", o.path, it), v, fr, node)
            return
        if isinstance(o, ViewV) and o.kind == "flat":
            self.setitem(o.ref, mk("flat", it) if not full_slice(it) else it, v, fr, node)
            return
        if isinstance(o, Ref) and o.kind == "list":
            r = self.rec(st, o)
            n = num(it)
            if r.items is not None and n is not None and -len(r.items) <= n < len(r.items):
                items = list(r.items)
                items[int(n)] = v
                st.heap[o.id] = ListRec(tuple(items))
            else:
                st.heap[o.id] = ListRec(None, mk("store", self.term(o, st), it, vt))
            self.emit("store", "list", node, st, data=(o, it, vt, None, None))
            return
        # view of an array obtained by indexing?
        ot = self.term(o, st)
        base = self.view_base(ot, st)
        if base is not None:
            bref, path = base
            r = self.rec(st, bref)
            region = mk("view", path, it)
            st.heap[bref.id] = ArrRec(mk("store", r.content, region, vt), r.shape)
            self.emit("store", "view", node, st, data=(bref, region, vt, r.content, None))
            return
        self.emit("extstore", "item", node, st, data=(ot, it, vt, v))

    def shared(self, o, it, v, fr, node):
        """a store into an array that shares its memory with another one changes that one too"""
        if o.id not in self.shares:
            return
        base, flat = self.shares[o.id]
        if base.id not in fr.st.heap:
            return
        if flat and not full_slice(it):
            self.setitem(base, mk("flat", it), v, fr, node)
        else:
            self.setitem(base, mk("view", C("all"), it), v, fr, node)

    def view_base(self, t, st):
        # idx(<content of some array>, slices): find the array holding the content
        if t.op == "idx" and is_array(t):
            for i, r in st.heap.items():
                if isinstance(r, ArrRec) and r.content is t.args[0]:
                    return Ref(i, "arr"), t.args[1]
        return None

    def s_AugAssign(self, s, fr):
        st = fr.st
        t = s.target
        rhs = self.ev(s.value, fr)
        opn = type(s.op).__name__
        if isinstance(t, ast.Name) and isinstance(st.env.get(t.id), PartV):
            w = st.env[t.id]
            self.setitem(w, mk("slice", NONE, NONE, NONE), self.binop(opn, self.term(w, st), rhs, fr, s), fr, s)
        elif isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            self.aug_inplace(cur, opn, rhs, fr, s, lambda v: fr.st.env.__setitem__(t.id, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr, fr, t)
            self.aug_inplace(cur, opn, rhs, fr, s, lambda v: self.setattr(o, t.attr, v, fr, t))
        elif isinstance(t, ast.Subscript):
            o = self.held(t.value, fr)
            i = self.index(t.slice, fr)
            cur = self.getitem(o, i, fr, t)
            v = self.binop(opn, cur, rhs, fr, s)
            self.setitem(o, i, v, fr, t)

    def aug_inplace(self, cur, opn, rhs, fr, node, setter):
        st = fr.st
        if isinstance(cur, Ref) and cur.kind == "arr":
            r = self.rec(st, cur)
            v = self.binop(opn, cur, rhs, fr, node)
            vt = self.term(v, st)
            st.heap[cur.id] = ArrRec(vt, r.shape)
            self.shared(cur, mk("slice", NONE, NONE, NONE), v, fr, node)
            self.emit("store", "arr", node, st, data=(cur, mk("slice", NONE, NONE, NONE), vt, r.content, vt))
            return
        if isinstance(cur, Ref) and cur.kind == "list" and opn == "Add":
            self.list_extend(cur, rhs, fr, node)
            return
        if isinstance(cur, Ref) and cur.kind == "dict" and opn == "BitOr":
            self.dict_update(cur, rhs, fr, node)
            return
        if isinstance(cur, T) and cur.op == "idx" and is_array(cur):
            path = cur.args[1]
            parts = path.args if path.op == "tuple" else (path,)
            base = self.view_base(cur, st)
            if base is not None and any(a.op == "slice" for a in parts) and not any(is_array(a) or is_bool(a) for a in parts):
                bref = base[0]
                r = self.rec(st, bref)
                vt = self.term(self.binop(opn, cur, rhs, fr, node), st)
                new = store(r.content, path, vt)
                self.emit("store", "view", node, st, data=(bref, path, vt, r.content, new))
                st.heap[bref.id] = ArrRec(new, r.shape)
                setter(idx(new, path))
                return
        setter(self.binop(opn, cur, rhs, fr, node))

    def s_If(self, s, fr):
        c = truth(self.term(self.ev(s.test, fr), fr.st))
        if fr.st.dead:
            return
        if c in fr.st.pc:
            c = TRUE
        elif not_(c) in fr.st.pc:
            c = FALSE
        if c is TRUE:
            return self.block(s.body, fr)
        if c is FALSE:
            return self.block(s.orelse, fr)
        base = fr.st
        nret = len(fr.rets)
        a = base.clone()
        a.assume(c)
        b = base.clone()
        b.assume(not_(c))
        fr.st = a
        r1 = self.block(s.body, fr) if not a.dead else ([], [])
        a = fr.st
        fr.st = b
        r2 = self.block(s.orelse, fr) if not b.dead else ([], [])
        b = fr.st
        r1 = r1 or ([], [])
        r2 = r2 or ([], [])
        if a.dead and b.dead:
            fr.st = a
        else:
            fr.st = self.merge(c, a, b)
            if len(fr.rets) == nret and not (r1[0] or r1[1] or r2[0] or r2[1]):
                # only exceptions leave in between: the new conditions say 'no exception'
                for q in fr.st.pc:
                    if q not in base.pc:
                        self.exit_conds.add(q)
        return r1[0] + r2[0], r1[1] + r2[1]

    def s_Match(self, s, fr):
        self.unmodelled.append(("Match", self.where(s)))

    def s_Break(self, s, fr):
        st = fr.st.clone()
        fr.st.dead = True
        return [st], []

    def s_Continue(self, s, fr):
        st = fr.st.clone()
        fr.st.dead = True
        return [], [st]

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            self.emit("enter", "with", it.context_expr, fr.st, data=self.term(v, fr.st))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        r = self.block(s.body, fr)
        if not fr.st.dead:
            for it in reversed(s.items):
                # the context value, re-described by its variable when there is one
                v = None
                if isinstance(it.optional_vars, ast.Name):
                    v = fr.st.env.get(it.optional_vars.id)
                self.emit("exit", "with", it.context_expr, fr.st,
                          data=self.term(v, fr.st) if v is not None else None)
        return r

    def looked_up(self, s):
        """try: one statement with one subscript, except KeyError: the same as asking first"""
        if len(s.handlers) != 1 or s.finalbody or len(s.body) != 1:
            return None
        h, b = s.handlers[0], s.body[0]
        if self.handler_names(h) not in (["KeyError"], ["LookupError"]) or not isinstance(b, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)):
            return None
        if h.name and any(isinstance(x, ast.Name) and x.id == h.name for q in h.body for x in ast.walk(q)):
            return None
        if any(isinstance(x, ast.Raise) and x.exc is None for q in h.body for x in ast.walk(q)):
            return None
        subs = [x for x in ast.walk(b) if isinstance(x, ast.Subscript)]
        if len(subs) != 1 or isinstance(subs[0].slice, (ast.Slice, ast.Tuple)):
            return None
        if any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.Lambda, ast.ListComp, ast.NamedExpr)) for x in ast.walk(b)):
            return None
        return subs[0], h

    def s_Try(self, s, fr):
        q = self.looked_up(s)
        if q is not None:
            o = self.ev(q[0].value, fr)
            if isinstance(o, Ref) and o.kind == "dict":
                test = ast.copy_location(ast.Compare(q[0].slice, [ast.In()], [q[0].value]), s)
                return self.s_If(ast.copy_location(ast.If(test, s.body + s.orelse, q[1].body), s), fr)
        base = fr.st.clone()
        mark = len(self.events)
        self.sink.append([])
        tid = "exc@%s:%d" % (fr.fv.mod.name, s.lineno)
        self.emit("try", tid, s, fr.st)
        r = self.block(s.body, fr) or ([], [])
        excs = self.sink.pop()
        after = fr.st
        self.emit("endtry", tid, s, fr.st if not fr.st.dead else base)
        brk, cont = list(r[0]), list(r[1])
        # else clause
        if s.orelse and not fr.st.dead:
            r = self.block(s.orelse, fr) or ([], [])
            brk += r[0]
            cont += r[1]
            after = fr.st
        results = []
        calls = any(e.kind in ("call", "rng", "extstore") for e in self.events[mark:])
        rest = []
        pend = list(excs)
        for h in s.handlers:
            names = self.handler_names(h)
            taken = []
            keep = []
            for e in pend:
                if self.exc_match(e.cls, names):
                    taken.append(e)
                else:
                    keep.append(e)
            pend = keep
            g = sym("%s/%s" % (tid, "|".join(names) if names else "any"), "b")
            # implicit exceptions raised by calls outside the package
            hst = self.partial_state(base, after, tid)
            if calls or not excs:
                hst.assume(g)
                for e in taken:
                    rel = [x for x in e.st.pc if x not in base.pc]
                    hst = self.merge(and_(*rel), e.st.clone(), hst)
            elif taken:
                hst = taken[0].st.clone()
                for e in taken[1:]:
                    rel = [x for x in e.st.pc if x not in base.pc]
                    hst = self.merge(and_(*rel), e.st.clone(), hst)
            else:
                continue
            hst.env = dict(hst.env)
            if h.name:
                hst.env[h.name] = mk("excvar", "|".join(names) if names else "Exception", tid)
            fr.st = hst
            old = getattr(fr, "cur_exc", None)
            fr.cur_exc = ("|".join(names) or "Exception", NONE)
            self.emit("handler", "|".join(names), h, fr.st, data=tid)
            rr = self.block(h.body, fr) or ([], [])
            fr.cur_exc = old
            brk += rr[0]
            cont += rr[1]
            if not fr.st.dead:
                results.append((g, fr.st))
        self.sink[-1].extend(pend)
        fr.st = after
        for g, hs in results:
            if fr.st.dead:
                fr.st = hs
            else:
                fr.st = self.merge(g, hs, fr.st)
        if s.finalbody:
            if not fr.st.dead:
                self.emit("finally", tid, s, fr.st)
                rr = self.block(s.finalbody, fr) or ([], [])
                brk += rr[0]
                cont += rr[1]
            elif fr.rets or pend:
                # every normal path returned or raised: run the clause on a copy
                fr.st = base.clone()
                self.emit("finally", tid, s, fr.st)
                self.block(s.finalbody, fr)
                fr.st.dead = True
        return brk, cont
    s_TryStar = s_Try

    def partial_state(self, base, after, tid):
        """state on an implicit exception: each location changed by the body
        holds either its old or its new value"""
        p = sym(tid + "/partial", "b")
        if after.dead:
            return base.clone()
        b = base.clone()
        a = after.clone()
        pc = base.pc
        m = self.merge(p, a, b)
        m.pc = pc
        return m

    HIER = {"ValueError": {"Exception", "BaseException"}, "RuntimeError": {"Exception", "BaseException"},
            "NotImplementedError": {"RuntimeError", "Exception", "BaseException"},
            "FileExistsError": {"OSError", "IOError", "Exception", "BaseException"},
            "FileNotFoundError": {"OSError", "IOError", "Exception", "BaseException"},
            "OSError": {"IOError", "Exception", "BaseException"},
            "IndexError": {"LookupError", "Exception", "BaseException"},
            "KeyError": {"LookupError", "Exception", "BaseException"}}

    def exc_match(self, cls, names):
        if not names:
            return True
        for n in names:
            for c in str(cls).split("|"):
                c = c.split(".")[-1]
                if n == c or n in self.HIER.get(c, {"Exception", "BaseException"}):
                    return True
        return False

    def handler_names(self, h):
        if h.type is None:
            return []
        if isinstance(h.type, ast.Tuple):
            return [ast.unparse(x).split(".")[-1] for x in h.type.elts]
        return [ast.unparse(h.type).split(".")[-1]]

    # ----------------------------------------------------------------- loops
    def s_For(self, s, fr):
        if isinstance(s.iter, (ast.Tuple, ast.List)) and s.iter.elts and \
                not any(isinstance(x, ast.Starred) for x in s.iter.elts):
            itv = tuple(self.windowed(s.target, x, fr) for x in s.iter.elts)
        else:
            itv = self.ev(s.iter, fr)
        it = self.iterate(itv, fr, s.iter)
        if fr.st.dead:
            return
        if it.items is not None and len(it.items) <= self.unroll[1]:
            brks, conts = [], []
            exits = []
            for p, v in it.items:
                if fr.st.dead:
                    break
                if p is FALSE:
                    continue
                base = None
                if p is not TRUE:
                    base = fr.st.clone()
                    base.assume(not_(p))
                    fr.st.assume(p)
                self.assign(s.target, v, fr)
                b, c = self.block(s.body, fr)
                for x in c:
                    fr.st = self.join_by_pc(x, fr.st)
                exits += b
                if base is not None:
                    fr.st = self.merge(p, fr.st, base) if not fr.st.dead else base
            if not fr.st.dead and s.orelse:
                b, c = self.block(s.orelse, fr)
                brks += b
                conts += c
            for x in exits:
                fr.st = self.join_by_pc(x, fr.st)
            return brks, conts
        return self.sym_loop(s, fr, it, None)

    def s_While(self, s, fr):
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and len(s.body) > 1 and \
                isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1 and \
                isinstance(s.body[0].body[0], ast.Break):
            # while True: if c: break; ... is while not c: ...
            if id(s) not in self.rewritten:
                t = ast.copy_location(ast.UnaryOp(ast.Not(), s.body[0].test), s.body[0].test)
                self.rewritten[id(s)] = (s, ast.copy_location(ast.While(t, s.body[1:], []), s))
            s = self.rewritten[id(s)][1]
        # concretely false on entry?
        probe = fr.st.clone()
        mark = len(self.events)
        save = fr.st
        fr.st = probe
        c = truth(self.term(self.ev(s.test, fr), fr.st))
        fr.st = save
        del self.events[mark:]
        if c is FALSE:
            self.ev(s.test, fr)
            return self.block(s.orelse, fr)
        if c is TRUE and not isinstance(s.test, ast.Constant):
            r = self.counted(s, fr)
            if r is not None:
                return r
        return self.sym_loop(s, fr, None, s.test)

    def counted(self, s, fr):
        """a while loop whose test is decided on every turn, taken turn by
        turn; None (and no effect) when some turn leaves the test open"""
        base = fr.st.clone()
        emark, xmark, rmark, lid = len(self.events), len(self.sink[-1]), len(fr.rets), self.nlid
        exits = []
        for turn in range(65):
            if fr.st.dead:
                break
            c = truth(self.term(self.ev(s.test, fr), fr.st))
            if c is FALSE:
                break
            if c is not TRUE or turn == 64:
                del self.events[emark:]
                del self.sink[-1][xmark:]
                del fr.rets[rmark:]
                for q in [q for q in self.loops if q > lid]:
                    del self.loops[q]
                fr.st = base
                return None
            b, k = self.block(s.body, fr)
            for x in k:
                fr.st = self.join_by_pc(x, fr.st)
            exits += b
        brks, conts = [], []
        if not fr.st.dead and s.orelse:
            brks, conts = self.block(s.orelse, fr)
        for x in exits:
            fr.st = self.join_by_pc(x, fr.st)
        return brks, conts

    def join_by_pc(self, x, st):
        """join an exclusive early state x with the running state"""
        if st.dead:
            return x
        rel = [q for q in x.pc if q not in st.pc]
        g = and_(*rel)
        if g is TRUE:
            rel2 = [q for q in st.pc if q not in x.pc]
            g = not_(and_(*rel2))
        return self.merge(g, x, st)

    def havoc_val(self, lid, loc, old, cur, st, so, op):
        name = loc
        if isinstance(old, Ref) and old.kind == "arr" or isinstance(cur, Ref) and cur.kind == "arr":
            ref = cur if isinstance(cur, Ref) and cur.kind == "arr" else old
            src = so if ref is cur else st
            try:
                b = is_bool(self.term(ref, src))
            except Blow:
                b = False
            try:
                shp = self.rec(src, ref).shape
            except Blow:
                shp = None
            t = mk(op, lid, name, "m" if b else "a")
            return self.new_arr(st, t, shp)
        if isinstance(old, tuple) and isinstance(cur, tuple) and len(old) == len(cur):
            return tuple(self.havoc_val(lid, "%s.%d" % (loc, k), o, c, st, so, op)
                         for k, (o, c) in enumerate(zip(old, cur)))
        if isinstance(cur, Ref) and cur.kind == "dict":
            return self.new_dict(st, {}, mk(op, lid, name, "s"))
        if isinstance(cur, Ref) and cur.kind == "list":
            return self.new_list(st, None, mk(op, lid, name, "s"))
        if isinstance(cur, Ref) and cur.kind == "obj":
            return cur if cur.id in st.heap else mk(op, lid, name, "s")
        if isinstance(cur, (FuncV, ClassV, ExtV, ModV, BoundV)):
            return cur
        t1 = old if isinstance(old, T) else (self.term(old, st) if old is not UNDEF and not isinstance(old, T) else old)
        t2 = self.term(cur, so)
        k = "s"
        if is_bool(t2) and (old is UNDEF or (isinstance(t1, T) and is_bool(t1))):
            k = "m" if is_array(t2) else "b"
        elif is_array(t2):
            k = "a"
        return mk(op, lid, name, k)

    def havoc(self, lid, base, mods, so, op, fields=None):
        """mods: ('e',name) / ('f',objid,attr) / ('r',refid)"""
        st = base.clone()
        vals = {}
        for m in sorted(mods, key=str):
            if m[0] == "e":
                old = st.env.get(m[1], UNDEF)
                v = self.havoc_val(lid, m[1], old, so.env.get(m[1], UNDEF), st, so, op)
                st.env[m[1]] = v
                vals[m] = v
            elif m[0] == "f":
                r = st.heap[m[1]]
                ro = so.heap[m[1]]
                old = r.fields.get(m[2], UNDEF)
                cur = ro.fields.get(m[2], UNDEF)
                nm = "%s.%s" % (r.lazy or (r.cls.name if r.cls else "obj"), m[2])
                v = self.havoc_val(lid, nm, old, cur, st, so, op)
                f = dict(st.heap[m[1]].fields)
                f[m[2]] = v
                st.heap[m[1]] = ObjRec(r.cls, f, r.lazy)
                vals[m] = v
            else:
                r = st.heap.get(m[1])
                ro = so.heap.get(m[1])
                if isinstance(r, ArrRec):
                    nm = self.ref_name(m[1], base)
                    b = is_bool(r.content)
                    st.heap[m[1]] = ArrRec(mk(op, lid, nm, "m" if b else "a"), r.shape)
                    vals[m] = Ref(m[1], "arr")
                elif isinstance(r, ListRec):
                    nm = self.ref_name(m[1], base)
                    st.heap[m[1]] = ListRec(None, mk(op, lid, nm, "s"))
                    vals[m] = Ref(m[1], "list")
                elif isinstance(r, DictRec):
                    nm = self.ref_name(m[1], base)
                    st.heap[m[1]] = DictRec({}, mk(op, lid, nm, "s"))
                    vals[m] = Ref(m[1], "dict")
        return st, vals

    def ref_name(self, rid, st):
        for i, r in st.heap.items():
            if isinstance(r, ObjRec):
                for k, v in r.fields.items():
                    if isinstance(v, Ref) and v.id == rid:
                        return "%s.%s" % (r.lazy or (r.cls.name if r.cls else "obj"), k)
        for k, v in st.env.items():
            if isinstance(v, Ref) and v.id == rid:
                return k
        return "ref%d" % rid

    def modified(self, a, b):
        mods = set()
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            if not same_val(x, y):
                mods.add(("e", k))
        for i, r in a.heap.items():
            q = b.heap.get(i)
            if q is None or q is r:
                continue
            if isinstance(r, ObjRec):
                for k in set(r.fields) | set(q.fields):
                    x, y = r.fields.get(k), q.fields.get(k)
                    if x is None and y is not None:
                        ent = self.lazy.get((r.lazy, k))
                        if ent is not None and same_val(ent[2], y):
                            continue
                        x = UNDEF
                    if y is None:
                        continue
                    if not same_val(x, y):
                        mods.add(("f", i, k))
            elif isinstance(r, ArrRec):
                if r.content is not q.content:
                    mods.add(("r", i))
            elif isinstance(r, ListRec):
                if r.items != q.items or r.sym is not q.sym:
                    mods.add(("r", i))
            elif isinstance(r, DictRec):
                if not same_dict(r, q):
                    mods.add(("r", i))
        # lazily created arrays changed inside
        for (o, k), (rid, rr, v) in self.lazy.items():
            if rid is not None and rid not in a.heap and rid in b.heap and b.heap[rid].content is not rr.content:
                a.heap[rid] = rr
                mods.add(("r", rid))
        return mods

    def sym_loop(self, s, fr, it, test):
        base = fr.st
        self.nlid += 1
        lid = self.nlid
        mods = set()
        so = base
        mark = len(self.events)
        xmark = len(self.sink[-1])
        retmark = len(fr.rets)
        for rnd in range(6):
            del self.events[mark:]
            del self.sink[-1][xmark:]
            del fr.rets[retmark:]
            for q in [q for q in self.loops if q > lid]:
                del self.loops[q]
            L = Loop(lid, s, self.where(s))
            L.outer = tuple(self.loopstack)
            L.fn = self.stack[-1] if self.stack else None
            L.guard = base.pc
            head, phis = self.havoc(lid, base, mods, so, "phi")
            L.head_env = dict(head.env)
            L.head_heap = dict(head.heap)
            for m in mods:
                L.phi[m] = self.loc_term(m, head)
            fr.st = head
            self.loopstack.append(lid)
            L.ev0 = len(self.events)
            self.emit("loop", "begin", s, fr.st, data=lid)
            if it is not None:
                v = it.make(lid) if it.make is not None else mk("elem", lid, "v", "s")
                L.elem = v
                L.iter = it.desc
                self.assign(s.target, v, fr)
                L.cond = TRUE
            else:
                c = truth(self.term(self.ev(test, fr), fr.st))
                L.cond = c
                fr.st.assume(c)
            L.body_pc = fr.st.pc
            brk, cont = self.block(s.body, fr)
            end = fr.st
            for x in cont:
                end = self.join_by_pc(x, end)
            L.ev1 = len(self.events)
            self.emit("loop", "end", s, end if not end.dead else head, data=lid)
            self.loopstack.pop()
            so_full = end
            if end.dead and brk:
                so_full = brk[0]
            allmods = set()
            for q in [end] + brk:
                if not q.dead:
                    allmods |= self.modified(base, q)
            L.exits = brk
            L.end = end
            for m in mods:
                L.init[m] = self.loc_term(m, base)
                if not end.dead:
                    L.next[m] = self.loc_term(m, end)
            self.loops[lid] = L
            if allmods <= mods:
                break
            mods |= allmods
            # combined "so" for kinds: prefer end, fall back to break states
            so = St(dict(so_full.env), dict(so_full.heap))
            for q in brk:
                for k, v in q.env.items():
                    so.env.setdefault(k, v)
                for k, v in q.heap.items():
                    so.heap.setdefault(k, v)
        # state after the loop
        out, outs = self.havoc(lid, base, mods, so, "lout")
        L.out = {m: self.loc_term(m, out) for m in mods}
        # early returns inside the loop
        newrets = fr.rets[retmark:]
        del fr.rets[retmark:]
        for (rst, rv) in newrets:
            g = sym("ret@loop%d" % lid, "b")
            r2 = out.clone()
            r2.assume(g)
            rt = self.term(rv, rst) if not isinstance(rv, T) else rv
            fr.rets.append((r2, rv if isinstance(rv, T) else rt))
            out.assume(not_(g))
        # raises inside the loop: keep, conditioned on the loop
        if test is not None and not brk and not newrets:
            # the loop condition is false afterwards
            fr.st = out
            mk_ = len(self.events)
            try:
                c = truth(self.term(self.ev(test, fr), fr.st))
                if not has_unknown(c):
                    fr.st.pc = fr.st.pc + (not_(c),) if not isc(c) else fr.st.pc
                    self.exit_conds.add(not_(c))
            finally:
                del self.events[mk_:]
        fr.st = out
        if it is not None and isinstance(s.target, ast.Name):
            pass
        L.out_state = out
        if s.orelse:
            return self.block(s.orelse, fr)
        return [], []

    def loc_term(self, m, st):
        if m[0] == "e":
            return self.term(st.env.get(m[1], UNDEF), st)
        if m[0] == "f":
            r = st.heap.get(m[1])
            if r is None:
                return UNDEF
            if m[2] not in r.fields and r.lazy:
                v = self.get_field(st, Ref(m[1], "obj"), m[2], None)
                return self.term(v, st) if v is not None else UNDEF
            return self.term(r.fields.get(m[2], UNDEF), st)
        r = st.heap.get(m[1])
        if isinstance(r, ArrRec):
            return r.content
        if isinstance(r, ListRec):
            return self.term(Ref(m[1], "list"), st)
        if isinstance(r, DictRec):
            return self.term(Ref(m[1], "dict"), st)
        return UNDEF

    def iterate(self, v, fr, node):
        st = fr.st
        if isinstance(v, IterV):
            return v
        if isinstance(v, tuple):
            return IterV([(TRUE, x) for x in v])
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if v.kind == "list":
                if r.items is not None:
                    return IterV([(TRUE, x) for x in r.items])
                return self.term_iter(r.sym)
            if v.kind == "dict":
                return self.dict_iter(v, "keys", st)
            if v.kind == "arr":
                return self.sym_iter(r.content)
            return self.sym_iter(unk("objiter"))
        if isinstance(v, ViewV):
            if v.kind == "flat":
                return self.sym_iter(self.term(v.ref, st))
            if isinstance(v.ref, Ref) and v.ref.kind == "dict":
                return self.dict_iter(v.ref, v.kind, st)
            t = self.term(v.ref, st)
            return self.sym_dict_iter(t, v.kind)
        return self.term_iter(self.term(v, st))

    def term_iter(self, t):
        if t.op in ("list", "tuple"):
            return IterV([(TRUE, x) for x in t.args])
        if isc(t) and isinstance(cval(t), str) and len(cval(t)) <= 64:
            return IterV([(TRUE, C(x)) for x in cval(t)])
        if t.op == "app" and t.args[0] == "filtered":
            return IterV([(x.args[0], x.args[1]) for x in t.args[1:]])
        if t.op == "attr" and t.args[1] in ("variables", "groups", "dimensions"):
            return self.sym_dict_iter(t, "keys")
        if t.op == "arr":
            return IterV([(TRUE, x) for x in t.args])
        if t.op == "app" and t.args[0] == "range":
            lo, hi, step = t.args[1:]
            if all(num(x) is not None for x in (lo, hi, step)) and num(step) != 0:
                n = len(range(int(num(lo)), int(num(hi)), int(num(step))))
                if n <= self.unroll[0]:
                    return IterV([(TRUE, C(k)) for k in range(int(num(lo)), int(num(hi)), int(num(step)))])
            return IterV(None, lambda lid: mk("elem", lid, "i", "s"), t)
        if t.op == "app" and t.args[0] in ("view.keys", "view.items", "view.values"):
            return self.sym_dict_iter(t.args[1], t.args[0].split(".")[1])
        return self.sym_iter(t)

    def sym_iter(self, t):
        if t.op == "aapp" and t.args[0] == "arange":
            return IterV(None, lambda lid: mk("elem", lid, "i", "s"), t)
        return IterV(None, lambda lid: idx(t, mk("elem", lid, "i", "s")), t)

    def sym_dict_iter(self, t, kind):
        def make(lid):
            k = mk("elem", lid, "k", "s")
            val = mk("idx", t, k)
            return {"keys": k, "items": (k, val), "values": val}[kind]
        return IterV(None, make, mk("app", "view." + kind, t))

    def dict_iter(self, ref, kind, st):
        r = self.rec(st, ref)
        if r.base is not None:
            t = self.term(ref, st)
            return self.sym_dict_iter(t, kind)
        items = []
        for k, (p, v) in r.entries.items():
            kt = C(k) if isinstance(k, str) else k
            items.append((p, {"keys": kt, "items": (kt, v), "values": v}[kind]))
        return IterV(items)

    # ------------------------------------------------------------ containers
    def dkey(self, k, st):
        t = self.term(k, st)
        if isc(t):
            v = cval(t)
            return v if isinstance(v, str) else t
        return t

    def dict_set(self, ref, k, v, fr, node):
        st = fr.st
        r = self.rec(st, ref)
        kk = self.dkey(k, st)
        e = dict(r.entries)
        if isinstance(kk, T) and not isc(kk) and (len(e) or r.base is not None) and kk not in e:
            # symbolic key: the dict becomes a store term
            base = mk("dstore", self.term(ref, st), kk, self.term(v, st))
            st.heap[ref.id] = DictRec({}, base)
        elif isinstance(kk, T) and not isc(kk):
            st.heap[ref.id] = DictRec({}, mk("dstore", self.term(ref, st), kk, self.term(v, st)))
        else:
            e[kk] = (TRUE, v)
            st.heap[ref.id] = DictRec(e, r.base)
        shape = getattr(st.heap.get(v.id), "shape", None) if isinstance(v, Ref) and v.kind == "arr" else None
        self.emit("dictset", str(kk), node, st, data=(ref, self.term(k, st), self.term(v, st), v, shape))

    def dict_lookup(self, ref, k, st):
        """(presence, value)"""
        r = self.rec(st, ref)
        kk = self.dkey(k, st)
        if kk in r.entries:
            return r.entries[kk]
        kt = C(kk) if isinstance(kk, str) else kk
        if isinstance(kk, T) and not isc(kk):
            if r.base is None and 0 < len(r.entries) <= 12 and all(isinstance(k, str) for k in r.entries):
                vs = [(k, p, v if isinstance(v, T) else None) for k, (p, v) in r.entries.items()]
                if all(v is not None for _, _, v in vs):
                    val = UNDEF
                    for k, p, v in reversed(vs):
                        val = v if val is UNDEF else sel(and_(p, eq(kt, C(k))), v, val)
                    return or_(*[and_(p, eq(kt, C(k))) for k, p, _ in vs]), val
            t = self.term(ref, st)
            return app("in", kt, t), mk("idx", t, kt)
        if r.base is None:
            return FALSE, UNDEF
        return self.base_lookup(r.base, kt)

    def base_lookup(self, b, kt):
        if b.op == "dict":
            for kv in b.args[1:]:
                if kv.args[0] is kt:
                    return kv.args[1], kv.args[2]
            if b.args[0] is NONE:
                return FALSE, UNDEF
            if all(isc(kv.args[0]) for kv in b.args[1:]):
                return self.base_lookup(b.args[0], kt)
        if b.op == "dupdate":
            p2, v2 = self.base_lookup(b.args[1], kt)
            p1, v1 = self.base_lookup(b.args[0], kt)
            if v1 is UNDEF:
                return or_(p1, p2), v2
            if v2 is UNDEF:
                return or_(p1, p2), v1
            return or_(p1, p2), sel(p2, v2, v1)
        if b.op == "sel":
            p1, v1 = self.base_lookup(b.args[1], kt)
            p2, v2 = self.base_lookup(b.args[2], kt)
            if v1 is UNDEF:
                v = v2
            elif v2 is UNDEF:
                v = v1
            else:
                v = sel(b.args[0], v1, v2)
            return sel(b.args[0], p1, p2), v
        if b is NONE:
            return FALSE, UNDEF
        return app("in", kt, b), mk("idx", b, kt)

    def dict_del(self, ref, k, fr, node):
        st = fr.st
        r = self.rec(st, ref)
        kk = self.dkey(k, st)
        p, v = self.dict_lookup(ref, k, st)
        self.emit("dictdel", str(kk), node, st, data=(ref, self.term(k, st), p))
        e = dict(r.entries)
        if isinstance(kk, T) and not isc(kk):
            st.heap[ref.id] = DictRec({}, mk("ddel", self.term(ref, st), kk))
            return v
        if r.base is None:
            e.pop(kk, None)
            st.heap[ref.id] = DictRec(e, None)
        else:
            e[kk] = (FALSE, UNDEF)
            st.heap[ref.id] = DictRec(e, r.base)
        return v

    def dict_update(self, ref, other, fr, node):
        st = fr.st
        if isinstance(other, (IterV, tuple)) or isinstance(other, Ref) and other.kind == "list":
            prs = self.iterate(other, fr, node).items
            if prs is not None and all(g is TRUE for g, _ in prs):
                prs = [self.iterate(x, fr, node).items for _, x in prs]
                if all(x is not None and len(x) == 2 for x in prs):
                    for (_, k), (_, v) in prs:
                        self.dict_set(ref, k, v, fr, node)
                    return
        if isinstance(other, Ref) and other.kind == "dict":
            ro = self.rec(st, other)
            if ro.base is None:
                for k, (p, v) in ro.entries.items():
                    r = self.rec(st, ref)
                    e = dict(r.entries)
                    if p is TRUE:
                        e[k] = (TRUE, v)
                    else:
                        kt = C(k) if isinstance(k, str) else k
                        p0, v0 = self.dict_lookup(ref, kt, st)
                        nv = v if v0 is UNDEF else self.merge_val(p, v, v0, st, st, st)
                        e[k] = (or_(p, p0), nv)
                    st.heap[ref.id] = DictRec(e, r.base)
                self.emit("dictupdate", "update", node, st, data=(ref, self.term(other, st)))
                return
        ot = self.term(other, st)
        r = self.rec(st, ref)
        if not r.entries and r.base is None:
            st.heap[ref.id] = DictRec({}, ot)
        else:
            st.heap[ref.id] = DictRec({}, mk("dupdate", self.term(ref, st), ot))
        self.emit("dictupdate", "update", node, st, data=(ref, ot))

    def list_extend(self, ref, other, fr, node):
        st = fr.st
        r = self.rec(st, ref)
        it = self.iterate(other, fr, node)
        if r.items is not None and it.items is not None and all(p is TRUE for p, _ in it.items):
            st.heap[ref.id] = ListRec(r.items + tuple(v for _, v in it.items))
        else:
            st.heap[ref.id] = ListRec(None, mk("app", "concat", self.term(ref, st), self.term(other, st)))
        self.emit("append", "extend", node, st, data=(ref, self.term(other, st), other))

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unmodelled.append((type(n).__name__, self.where(n)))
            return unk("expr:" + type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        try:
            return C(n.value)
        except TypeError:
            return unk("const")

    def e_Name(self, n, fr):
        if n.id in fr.st.env:
            v = fr.st.env[n.id]
            return self.term(v, fr.st) if isinstance(v, PartV) else v
        f = fr.fv.closure
        while f is not None:
            if n.id in f.st.env:
                return f.st.env[n.id]
            f = f.fv.closure
        v = self.repo.resolve(fr.fv.mod, n.id)
        if v is not None:
            return self.modvalue(v, fr.fv.mod, n.id, fr)
        if n.id == "__file__":
            return mk("app", "__file__")
        if n.id == "__class__":
            return fr.fv.cls or unk("cls")
        return ExtV("builtins." + n.id)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Attribute(self, n, fr):
        v = self.ev(n.value, fr)
        return self.getattr(v, n.attr, fr, n)

    def e_Tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                it = self.iterate(self.ev(e.value, fr), fr, e)
                if it.items is None:
                    return mk("app", "startuple", self.term(self.ev(e.value, fr), fr.st))
                out += [v for p, v in it.items]
            else:
                out.append(self.ev(e, fr))
        return tuple(out)

    def e_List(self, n, fr):
        v = self.e_Tuple(n, fr)
        if isinstance(v, T):
            return self.new_list(fr.st, None, v)
        return self.new_list(fr.st, v)

    def e_Set(self, n, fr):
        return mk("app", "set", *[self.term(self.ev(e, fr), fr.st) for e in n.elts])

    def e_Dict(self, n, fr):
        d = self.new_dict(fr.st)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr), fr, n)
            else:
                kv = self.ev(k, fr)
                vv = self.ev(v, fr)
                mark = len(self.events)
                self.dict_set(d, kv, vv, fr, n)
                del self.events[mark:]
        return d

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                t = self.term(self.ev(v.value, fr), fr.st)
                if v.format_spec is not None:
                    t = mk("app", "fmt", t, self.term(self.ev(v.format_spec, fr), fr.st))
                parts.append(t)
            else:
                parts.append(C(v.value))
        if all(isc(p) and isinstance(cval(p), str) for p in parts):
            return C("".join(cval(p) for p in parts))
        r = None
        for p in parts:
            if not (isc(p) and isinstance(cval(p), str)):
                p = mk("app", "str", p)
            r = p if r is None else add(r, p)
        return r if r is not None else C("")

    def e_FormattedValue(self, n, fr):
        return self.ev(n.value, fr)

    def e_Lambda(self, n, fr):
        return FuncV(n, fr.fv.mod, None, fr.fv.jit, closure=fr)

    def e_IfExp(self, n, fr):
        c = truth(self.term(self.ev(n.test, fr), fr.st))
        if c is TRUE:
            return self.ev(n.body, fr)
        if c is FALSE:
            return self.ev(n.orelse, fr)
        base = fr.st
        a = base.clone()
        a.assume(c)
        b = base.clone()
        b.assume(not_(c))
        fr.st = a
        va = self.ev(n.body, fr)
        a = fr.st
        fr.st = b
        vb = self.ev(n.orelse, fr)
        b = fr.st
        out = self.merge(c, a, b)
        fr.st = out
        if a.dead:
            return vb
        if b.dead:
            return va
        return self.merge_val(c, va, vb, a, b, out)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], fr)
        for nx in n.values[1:]:
            t = self.term(v, fr.st)
            c = truth(t)
            if c is (FALSE if isand else TRUE):
                return v
            if c is (TRUE if isand else FALSE):
                v = self.ev(nx, fr)
                continue
            save = fr.st.pc
            fr.st.assume(c if isand else not_(c))
            if fr.st.dead:
                fr.st.dead = False
                fr.st.pc = save
                return v
            w = self.ev(nx, fr)
            fr.st.pc = save
            wt = self.term(w, fr.st)
            if is_bool(t) and is_bool(wt):
                v = and_(t, wt) if isand else or_(t, wt)
            else:
                v = sel(c, wt, t) if isand else sel(c, t, wt)
        return v

    def e_UnaryOp(self, n, fr):
        v = self.term(self.ev(n.operand, fr), fr.st)
        if isinstance(n.op, ast.Not):
            return not_(v)
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if is_bool(v):
                return not_(v)
            return pw("invert", v)
        return unk("unary")

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op).__name__, a, b, fr, n)

    def binop(self, op, a, b, fr, node):
        st = fr.st
        if op == "Add" and isinstance(a, Ref) and a.kind == "list" and isinstance(b, Ref) and b.kind == "list":
            ra, rb = self.rec(st, a), self.rec(st, b)
            if ra.items is not None and rb.items is not None:
                return self.new_list(st, ra.items + rb.items)
        if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == "Mult" and isinstance(a, Ref) and a.kind == "list":
            ra, k = self.rec(st, a), num(self.term(b, st))
            if ra.items is not None and k is not None and len(ra.items) * k <= 64:
                return self.new_list(st, ra.items * int(k))
        if op == "BitOr" and isinstance(a, Ref) and a.kind == "dict":
            d = self.dict_copy(a, fr)
            self.dict_update(d, b, fr, node)
            return d
        arr = isinstance(a, Ref) and a.kind == "arr" or isinstance(b, Ref) and b.kind == "arr"
        shp = None
        for q in (a, b):
            if isinstance(q, Ref) and q.kind == "arr":
                shp = shp or self.rec(st, q).shape
        x, y = self.term(a, st), self.term(b, st)
        if op == "Mod" and isc(x) and isinstance(cval(x), str):
            parts = cval(x).split("%s")
            vals = [self.term(q, st) for q in b] if isinstance(b, tuple) else list(y.args) if y.op == "tuple" else [y]
            if len(parts) == len(vals) + 1 > 2 and not any("%" in q for q in parts):
                out = [C(parts[0])]
                for v, q in zip(vals, parts[1:]):
                    out += [v, C(q)]
                return concat(*out)
            return app("str", x, y)
        if op == "Add":
            if (isc(x) and isinstance(cval(x), str)) or (isc(y) and isinstance(cval(y), str)):
                r = add(x, y)
            else:
                r = add(x, y)
        elif op == "Sub":
            r = sub(x, y)
        elif op == "Mult":
            # boolean mask times value: selection
            if is_bool(x) and not isc(x) and not is_bool(y):
                r = sel(x, y, ZERO)
            elif is_bool(y) and not isc(y) and not is_bool(x):
                r = sel(y, x, ZERO)
            else:
                r = mul(x, y)
        elif op == "Div":
            if isinstance(x, T) and x.op in ("app", "ext", "attr") and isc(y) and isinstance(cval(y), str):
                r = app("pathjoin", x, y)
            else:
                r = div(x, y)
        elif op == "Pow":
            r = power(x, y)
        elif op == "FloorDiv":
            p, q = num(x), num(y)
            r = C(p // q) if p is not None and q else mk("floordiv", x, y)
        elif op == "Mod":
            p, q = num(x), num(y)
            r = C(p % q) if p is not None and q else mk("mod", x, y)
        elif op == "BitAnd":
            r = and_(x, y) if is_bool(x) and is_bool(y) else pw("bitand", x, y)
        elif op == "BitOr":
            r = or_(x, y) if is_bool(x) and is_bool(y) else pw("bitor", x, y)
        elif op == "BitXor":
            r = sel(x, not_(y), y) if is_bool(x) and is_bool(y) else pw("bitxor", x, y)
        else:
            r = pw(op, x, y)
        if arr:
            return self.new_arr(st, r, shp)
        return r

    def e_Compare(self, n, fr):
        l = self.ev(n.left, fr)
        out = []
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn, fr)
            out.append(self.compare(type(op).__name__, l, r, fr, n))
            l = r
        return and_(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, fr, node):
        st = fr.st
        if op in ("In", "NotIn"):
            r = self.contains(a, b, fr)
            return not_(r) if op == "NotIn" else r
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            if not isinstance(a, T) or not isinstance(b, T):
                if isinstance(a, (ClassV, FuncV, ExtV)) and isinstance(b, (ClassV, FuncV, ExtV)):
                    r = TRUE if a == b else FALSE
                    return not_(r) if op in ("IsNot", "NotEq") else r
                if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Is", "IsNot") and a.kind == b.kind:
                    r = TRUE if a.id == b.id else FALSE
                    return not_(r) if op == "IsNot" else r
                if (b is NONE and not isinstance(a, T) and not (isinstance(a, Ref) and a.kind in ("arr", "list", "dict"))):
                    return FALSE if op in ("Is", "Eq") else TRUE
                if b is NONE and isinstance(a, Ref) and a.kind in ("list", "dict"):
                    return FALSE if op in ("Is", "Eq") else TRUE
            x, y = self.term(a, st), self.term(b, st)
            if op in ("Is", "IsNot") and (y is TRUE or y is FALSE) and not is_bool(x) and not isc(x) and x.op in ("sym", "idx", "ext", "sel"):
                r = mk("eq", x, y)
            elif op in ("Is", "IsNot") and (y is TRUE or y is FALSE) and isc(x):
                r = TRUE if x is y else FALSE
            else:
                r = eq(x, y)
            return not_(r) if op in ("IsNot", "NotEq") else r
        x, y = self.term(a, st), self.term(b, st)
        if op == "Lt":
            return lt(x, y)
        if op == "Gt":
            return lt(y, x)
        if op == "LtE":
            return le(x, y)
        if op == "GtE":
            return le(y, x)
        return unk("cmp")

    def contains(self, k, c, fr):
        st = fr.st
        if isinstance(c, ViewV) and c.kind == "keys":
            c = c.ref
        if isinstance(c, Ref) and c.kind == "dict":
            return self.dict_lookup(c, k, st)[0]
        items = None
        if isinstance(c, tuple):
            items = c
        elif isinstance(c, Ref) and c.kind == "list" and self.rec(st, c).items is not None:
            items = self.rec(st, c).items
        kt = self.term(k, st)
        ct = self.term(c, st)
        if items is None and ct.op in ("tuple", "list"):
            items = ct.args
        if items is not None:
            return or_(*[eq(kt, self.term(x, st)) for x in items])
        if isc(kt) and isc(ct) and isinstance(cval(ct), str) and isinstance(cval(kt), str):
            return TRUE if cval(kt) in cval(ct) else FALSE
        if ct.op == "app" and ct.args[0] == "view.keys":
            ct = ct.args[1]
        if ct.op in ("dupdate", "dict"):
            return self.base_lookup(ct, kt)[0]
        return app("in", kt, ct)

    def index(self, s, fr):
        return self.ev(s, fr)

    def e_Slice(self, n, fr):
        f = lambda x: NONE if x is None else self.term(self.ev(x, fr), fr.st)
        return mk("slice", f(n.lower), f(n.upper), f(n.step))

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        i = self.index(n.slice, fr)
        return self.getitem(o, i, fr, n)

    def getitem(self, o, i, fr, node):
        st = fr.st
        if isinstance(o, Ref) and o.kind == "dict":
            return self.dict_lookup(o, i, st)[1]
        it = self.term(i, st)
        if isinstance(o, tuple) or (isinstance(o, Ref) and o.kind == "list" and self.rec(st, o).items is not None):
            items = o if isinstance(o, tuple) else self.rec(st, o).items
            n = num(it)
            if n is not None and -len(items) <= n < len(items):
                return items[int(n)]
            if it.op == "slice" and all(a is NONE or num(a) is not None for a in it.args):
                b = [None if a is NONE else int(num(a)) for a in it.args]
                r = items[slice(*b)]
                return tuple(r) if isinstance(o, tuple) else self.new_list(st, r)
            return idx(self.term(o, st), it)
        if isinstance(o, ViewV) and o.kind == "flat":
            base = self.term(o.ref, st)
            if full_slice(it):
                # x.flat[:] copies
                return self.new_arr(st, mk("aapp", "flat", base))
            return idx(base, mk("flat", it))
        if isinstance(o, PartV):
            path = self.through(o, it)
            return idx(self.rec(st, o.ref).content, path) if path is not None else idx(self.term(o, st), it)
        if isinstance(o, (ClassV, ExtV, FuncV)):
            return unk("generic")
        t = self.term(o, st)
        if isinstance(o, Ref) and o.kind == "arr" and full_slice(it):
            return o
        if isinstance(o, Ref) and o.kind == "arr" and not TM._idx_multi(it) and it.op not in ("tuple", "flat") and \
                it is not NONE and self.two_axes(self.rec(st, o)):
            it = mk("tuple", it, mk("slice", NONE, NONE, NONE))
        if t.op in ("dict", "dupdate", "sel") and isc(it):
            p, v = self.base_lookup(t, it) if t.op != "sel" else (None, idx(t, it))
            return v
        return idx(t, it)

    def two_axes(self, r):
        """an array that certainly has two axes"""
        if isinstance(r.shape, T):
            if r.shape.op == "tuple":
                return len(r.shape.args) == 2
            if r.shape.op == "shape" and r.shape.args[0] in GRIDS:
                return True
        t = _shape_base(r.content)
        return t.op == "sym" and (t.args[0] in GRIDS or t.args[0] == "$a")

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def comp(self, n, fr, elt):
        base_env = dict(fr.st.env)
        out = []

        def rec(k, guard):
            if k == len(n.generators):
                out.append((guard, elt()))
                return True
            g = n.generators[k]
            it = self.iterate(self.ev(g.iter, fr), fr, g.iter)
            if it.items is None or len(it.items) > 300:
                return False
            for p, v in it.items:
                if p is FALSE:
                    continue
                self.assign(g.target, v, fr)
                gg = and_(guard, p)
                for c in g.ifs:
                    gg = and_(gg, truth(self.term(self.ev(c, fr), fr.st)))
                if gg is FALSE:
                    continue
                save = fr.st.pc
                if gg is not TRUE:
                    fr.st.assume(gg)
                ok = rec(k + 1, gg)
                fr.st.pc = save
                fr.st.dead = False
                if not ok:
                    return False
            return True
        mark = len(self.events)
        ok = rec(0, TRUE)
        fr.st.env = base_env
        if ok:
            return out
        del self.events[mark:]
        return None

    def sym_comp(self, n, fr, elt):
        base_env = dict(fr.st.env)
        self.nlid += 1
        lid = self.nlid
        conds = []
        iters = []
        lids = []
        for g in n.generators:
            if lids:
                self.nlid += 1
            lids.append(self.nlid)
            it = self.iterate(self.ev(g.iter, fr), fr, g.iter)
            if it.items is not None:
                v = idx(self.term(self.ev(g.iter, fr), fr.st), mk("elem", lids[-1], "i", "s"))
                iters.append(self.term(self.ev(g.iter, fr), fr.st))
            else:
                v = it.make(lids[-1])
                iters.append(it.desc if isinstance(it.desc, T) else unk("it"))
            self.assign(g.target, v, fr)
            for c in g.ifs:
                conds.append(truth(self.term(self.ev(c, fr), fr.st)))
        save = fr.st.pc
        for c in conds:
            fr.st.assume(c)
        L = Loop(lid, n, self.where(n))
        self.loopstack.append(lid)
        L.ev0 = len(self.events)
        v = elt()
        L.ev1 = len(self.events)
        self.loopstack.pop()
        L.comp = (self.term(v, fr.st) if not isinstance(v, tuple) else self.term(v, fr.st), iters, conds)
        L.iter = iters[0]
        self.loops[lid] = L
        fr.st.pc = save
        fr.st.dead = False
        fr.st.env = base_env
        for k, x in zip(lids[1:], iters[1:]):
            M = Loop(k, n, self.where(n))
            M.ev0 = L.ev0
            M.ev1 = L.ev1
            M.iter = x
            self.loops[k] = M
        return mk("comp", self.term(v, fr.st), and_(*conds), *[mk("gen", k, x) for k, x in zip(lids, iters)])

    def e_ListComp(self, n, fr):
        out = self.comp(n, fr, lambda: self.ev(n.elt, fr))
        if out is not None and all(g is TRUE for g, _ in out):
            return self.new_list(fr.st, [v for g, v in out])
        if out is not None and out:
            return self.new_list(fr.st, None, mk("app", "filtered", *[mk("tuple", g, self.term(v, fr.st)) for g, v in out]))
        if out is not None:
            return self.new_list(fr.st, [])
        t = self.sym_comp(n, fr, lambda: self.ev(n.elt, fr))
        return self.new_list(fr.st, None, t)

    def e_GeneratorExp(self, n, fr):
        out = self.comp(n, fr, lambda: self.ev(n.elt, fr))
        if out is not None:
            return IterV(out)
        t = self.sym_comp(n, fr, lambda: self.ev(n.elt, fr))
        return IterV(None, lambda lid: idx(t, mk("elem", lid, "i", "s")), t)

    def e_SetComp(self, n, fr):
        out = self.comp(n, fr, lambda: self.ev(n.elt, fr))
        if out is not None:
            return mk("app", "set", *[self.term(v, fr.st) for g, v in out])
        return self.sym_comp(n, fr, lambda: self.ev(n.elt, fr))

    def e_DictComp(self, n, fr):
        out = self.comp(n, fr, lambda: (self.ev(n.key, fr), self.ev(n.value, fr)))
        if out is not None:
            d = self.new_dict(fr.st)
            ent = {}
            for g, (k, v) in out:
                kk = self.dkey(k, fr.st)
                ent[kk] = (g, v)
            fr.st.heap[d.id] = DictRec(ent)
            return d
        t = self.sym_comp(n, fr, lambda: (self.ev(n.key, fr), self.ev(n.value, fr)))
        return self.new_dict(fr.st, {}, t)

    def e_Await(self, n, fr):
        return self.ev(n.value, fr)

    def e_Yield(self, n, fr):
        if n.value is not None:
            self.ev(n.value, fr)
        return unk("yield")
    e_YieldFrom = e_Yield

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in fr.st.env:
            if n.args:
                c = self.ev(n.args[0], fr)
                s = self.ev(n.args[1], fr) if len(n.args) > 1 else fr.selfv
            else:
                c, s = fr.fv.cls, fr.selfv
            return SuperV(c, s)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "fill" and len(n.args) == 1 and \
                isinstance(n.func.value, ast.Name) and isinstance(fr.st.env.get(n.func.value.id), PartV):
            v = self.ev(n.args[0], fr)
            self.setitem(fr.st.env[n.func.value.id], mk("slice", NONE, NONE, NONE), v, fr, n)
            return NONE
        f = self.ev(n.func, fr)
        args = []
        star = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                it = self.iterate(v, fr, a)
                if it.items is not None and all(p is TRUE for p, _ in it.items):
                    args += [x for _, x in it.items]
                else:
                    args.append(mk("star", self.term(v, fr.st)))
            elif isinstance(f, (FuncV, BoundV)) and (sliced(a) or isinstance(a, ast.Name) and isinstance(fr.st.env.get(a.id), PartV)):
                fn = f if isinstance(f, FuncV) else f.func
                names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
                k = len(args) + (0 if isinstance(f, FuncV) else 1)
                if k < len(names) and names[k] in stored_names(fn.node):
                    args.append(self.window(a, fr) if sliced(a) else fr.st.env[a.id])
                else:
                    args.append(self.ev(a, fr))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Ref) and v.kind == "dict":
                    r = self.rec(fr.st, v)
                    for kk, (p, x) in r.entries.items():
                        if isinstance(kk, str) and p is not FALSE:
                            kw[kk] = x
                    if r.base is not None:
                        kw["**"] = r.base
                else:
                    kw["**"] = self.term(v, fr.st)
            else:
                kw[k.arg] = v
        if fr.st.dead:
            return unk("dead")
        return self.call(f, args, kw, fr, n)

    def call(self, f, args, kw, fr, node):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, fr, node)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.self] + args, kw, fr, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, fr, node)
        if isinstance(f, MethV):
            return self.call_method(f.recv, f.name, args, kw, fr, node)
        if isinstance(f, ExtV):
            from . import extern
            return extern.call(self, f.name, args, kw, fr, node)
        if isinstance(f, T) and f.op == "attr":
            return self.call_extmethod(f.args[0], f.args[1], args, kw, fr, node)
        if isinstance(f, T) and f.op == "sel":
            # conditional callee (e.g. default class): call both under guards
            pass
        t = self.term(f, fr.st)
        self.emit("call", "indirect", node, fr.st, data=t, args=[self.term(a, fr.st) for a in args],
                  kwargs={k: self.term(v, fr.st) for k, v in kw.items()})
        return self.ext("indirect", t)

    def call_extmethod(self, recv, name, args, kw, fr, node):
        st = fr.st
        at = [self.term(a, st) for a in args]
        kt = {k: self.term(v, st) for k, v in kw.items()}
        self.emit("call", "." + name, node, st, data=recv, args=at, kwargs=kt)
        # arrays handed to unknown code may be written: remembered for effects
        return self.ext("." + name, recv, *at, *[mk("kv", C(k), v) for k, v in kt.items()])

    def call_method(self, recv, name, args, kw, fr, node):
        from . import extern
        return extern.method(self, recv, name, args, kw, fr, node)

    def instantiate(self, c, args, kw, fr, node):
        st = fr.st
        o = self.new_obj(st, c)
        self.emit("new", c.name, node, st, data=o, args=[self.term(a, st) for a in args],
                  kwargs={k: self.term(v, st) for k, v in kw.items()})
        init = c.find("__init__")
        if isinstance(init, FuncV):
            self.call_func(init, [o] + args, kw, fr, node)
        return o

    def bind(self, fv, args, kw, fr, env):
        a = fv.node.args
        pos = list(a.posonlyargs) + list(a.args)
        nd = len(a.defaults)
        args = list(args)
        kw = dict(kw)
        spread = kw.pop("**", None)
        for i, p in enumerate(pos):
            if args:
                env[p.arg] = args.pop(0)
            elif p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif spread is not None:
                d = self.default(fv, a.defaults[i - (len(pos) - nd)], fr) if i >= len(pos) - nd else unk("arg")
                pr, v = self.base_lookup(spread, C(p.arg))
                env[p.arg] = sel(pr, self.term(v, fr.st), self.term(d, fr.st)) if v is not UNDEF else d
            elif i >= len(pos) - nd:
                env[p.arg] = self.default(fv, a.defaults[i - (len(pos) - nd)], fr)
            else:
                env[p.arg] = unk("missing-arg:" + p.arg)
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif d is not None:
                env[p.arg] = self.default(fv, d, fr)
            else:
                env[p.arg] = unk("missing-arg:" + p.arg)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(fr.st, {k: (TRUE, v) for k, v in kw.items()}, spread)

    def default(self, fv, d, fr):
        return self.once(d, fv.mod, None, fr)

    def call_func(self, fv, args, kw, fr, node):
        st = fr.st
        if len(self.stack) > 60 or sum(1 for x in self.stack if x.node is fv.node) > 2:
            self.emit("call", "recursion", node, st)
            return unk("recursion:" + fv.name)
        self.calls += 1
        h = self.dispatch_override.get(fv.name)
        if h is not None:
            r = h(self, fv, args, kw, fr, node)
            if r is not NotImplemented:
                return r
        env = {}
        self.bind(fv, args, kw, fr, env)
        given = [self.safe_term(v, st) for v in env.values()]
        self.emit("enterfn", fv.name, node, st, data=fv, args=given)
        callee = Frame(fv, St(env, dict(st.heap), st.pc))
        pos = list(fv.node.args.posonlyargs) + list(fv.node.args.args)
        if fv.cls is not None and pos:
            callee.selfv = env.get(pos[0].arg)
        self.stack.append(fv)
        ls = self.loopstack
        try:
            if isinstance(fv.node, ast.Lambda):
                v = self.ev(fv.node.body, callee)
                if not callee.st.dead:
                    callee.rets.append((callee.st, v))
            else:
                self.block(fv.node.body, callee)
                if not callee.st.dead:
                    callee.rets.append((callee.st, NONE))
            out, val = self.fold_rets(callee)
            if out is not None:
                self.emit("exitfn", fv.name, node, St({}, {}, out.pc), data=fv, args=[self.safe_term(val, out)])
        finally:
            self.stack.pop()
        if out is None:
            st.dead = True
            return unk("noreturn")
        st.heap = out.heap
        st.pc = out.pc
        return self.remembered(fv, val, given, st) if memo_of(fv.node) else val

    def remembered(self, fv, val, given, st):
        """result of a caching function: where it depends on more than the arguments and that can change, it is the one of an earlier call"""
        from .core import closure
        t = self.term(val, st)
        known = closure(self, given)
        for x in closure(self, [t]):
            if x.op == "sym" and x not in known and "." in str(x.args[0]) and str(x.args[0]).split(".")[-1] in self.repo.changing():
                s = sym("remembered.%s" % fv.name, "a" if is_array(t) else "s")
                return self.new_arr(st, s) if isinstance(val, Ref) and val.kind == "arr" else s
        return val

    def safe_term(self, v, st):
        try:
            return self.term(v, st)
        except Blow:
            return unk("term")

    def fold_rets(self, fr):
        rets = [(s, v) for s, v in fr.rets if not s.dead]
        if not rets:
            return None, None
        s, v = rets[-1]
        s = St({}, s.heap, s.pc)
        for s1, v1 in reversed(rets[:-1]):
            s1 = St({}, s1.heap, s1.pc)
            rel = [q for q in s1.pc if q not in fr.entry_pc]
            g = and_(*rel)
            if g is TRUE:
                s, v = s1, v1
                continue
            out = self.merge(g, s1, s)
            v = self.merge_val(g, v1, v, s1, s, out)
            s = out
        if len(rets) > 1:
            for q in s.pc:
                if q not in fr.entry_pc:
                    self.exit_conds.add(q)
        return s, v

    # ----------------------------------------------------------------- driver
    def run(self, st, fv, args, kw=None):
        """call fv on the given state; returns the value; st updated in place"""
        fr = Frame(FuncV(ast.parse("0").body[0], fv.mod), st)
        self.stack.append(fr.fv)
        try:
            v = self.call_func(fv, args, kw or {}, fr, fv.node)
        finally:
            self.stack.pop()
        return v


def same_val(x, y):
    if x is y:
        return True
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x.id == y.id
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_val(a, b) for a, b in zip(x, y))
    if isinstance(x, ExtV) and isinstance(y, ExtV):
        return x.name == y.name
    if isinstance(x, BoundV) and isinstance(y, BoundV):
        return x.func is y.func and same_val(x.self, y.self)
    if isinstance(x, FuncV) and isinstance(y, FuncV):
        return x.node is y.node
    return False


def same_dict(a, b):
    if a.base is not b.base or set(a.entries) != set(b.entries):
        return False
    return all(a.entries[k][0] is b.entries[k][0] and same_val(a.entries[k][1], b.entries[k][1]) for k in a.entries)


GRIDS = {"self." + n for n in """Hnew Vp_dep_mud Vp_dep_sand X Y active_layer cell_type depth eta eta0 qs qw qwn qx qxn qy
qyn sand_frac stage sfc_sum sfc_visit uw ux uy mod_erosion mod_sed_weight mod_water_weight pad_cell_type pad_depth
pad_mod_sed_weight pad_stage""".split()}


def _shape_base(t):
    while t.op in ("store",) or (t.op == "sel"):
        t = t.args[0] if t.op == "store" else t.args[2]
    return t
