"""Models of the code outside the package: builtins, numpy, containers."""
from .terms import *          # noqa
from .interp import GRIDS, Ref, ArrRec, ListRec, DictRec, ObjRec, IterV, ViewV, MethV, BoundV
from .repo import FuncV, ClassV, ExtV, ModV

FULL = mk("slice", NONE, NONE, NONE)

INTEGRAL_PW = {"int", "round", "floor", "ceil"}


INT_SYMS = {"self." + n for n in """cell_type free_surf_flag free_surf_walk_inds inlet L W N0 L0 CTR _Np_water _Np_sed _itermax
            _save_iter _time_iter size_indices stepmax iwalk_flat jwalk_flat ravel_walk_flat _Nsmooth _N_crossdiff""".split()}


def integral(t):
    if t.op == "sym" and t.args[0] in INT_SYMS:
        return True
    n = num(t)
    if n is not None:
        return n.denominator == 1
    if t.op == "pw" and t.args[0] in INTEGRAL_PW:
        return True
    if t.op in ("add", "mul", "min", "max"):
        return all(integral(a) for a in t.args)
    if t.op == "floordiv":
        return all(integral(a) for a in t.args)
    if t.op == "elem":
        return t.args[1] == "i"
    if t.op == "app" and t.args[0] in ("len", "size"):
        return True
    if t.op == "sel":
        return integral(t.args[1]) and integral(t.args[2])
    return False


def to_int(t):
    n = num(t)
    if n is not None:
        return C(int(n))
    if integral(t):
        return t
    if is_bool(t):
        return sel(t, ONE, ZERO)
    if t.op == "pw" and t.args[0] == "round":
        return t
    return pw("int", t)


def dtype_name(d):
    if isinstance(d, ExtV):
        return d.name.split(".")[-1]
    if isinstance(d, T) and isc(d) and isinstance(cval(d), str):
        return cval(d)
    return ""


INT_DT = {"int", "int8", "int16", "int32", "int64", "intp", "uint8", "uint16", "uint32", "uint64", "i1", "i2", "i4", "i8", "u1", "u2",
          "u4", "u8", "int_", "integer"}
HALF_DT = {"float16", "half", "f2", "e"}


def cast(t, d):
    """value of t after conversion to the dtype: only conversions that can lose something are kept"""
    nm = d if isinstance(d, str) else dtype_name(d)
    if nm not in INT_DT and nm not in HALF_DT:
        return t
    if t.op == "arr":
        return mk("arr", *[cast(x, nm) for x in t.args])
    if nm in INT_DT:
        return to_int(t)
    if num(t) is not None or integral(t) or is_bool(t):
        return t
    return pw(nm if nm in HALF_DT else "half", t)


def rng_event(I, name, args, kw, fr, node):
    I.emit("rng", name, node, fr.st, data=bool(fr.fv.jit), args=[I.term(a, fr.st) for a in args],
           kwargs={k: I.term(v, fr.st) for k, v in kw.items()})


NP_REDUCE = {"sum", "any", "all", "max", "min", "amax", "amin", "mean", "prod", "cumsum", "argmax", "argmin",
             "nansum", "std", "median", "count_nonzero", "cumprod", "nonzero", "unique", "searchsorted",
             "argwhere", "flatnonzero", "sort", "argsort", "diff", "dot", "allclose", "array_equal", "isclose",
             "histogram", "bincount", "size", "ndim", "result_type", "issubdtype", "shape"}
NP_ARRAYS = {"arange", "pad", "hstack", "vstack", "concatenate", "stack", "tile", "repeat", "reshape", "ravel",
             "linspace", "eye", "roll", "flip", "transpose", "unravel_index", "ravel_multi_index", "meshgrid",
             "broadcast_to", "expand_dims", "squeeze", "outer", "append", "delete", "insert", "take"}
ALIAS = {"amax": "max", "amin": "min", "absolute": "abs", "fabs": "abs"}


def call(I, name, args, kw, fr, node):
    st = fr.st
    h = I.ext_override.get(name)
    if h is not None:
        r = h(I, args, kw, fr, node)
        if r is not NotImplemented:
            return r
    if name.startswith("builtins."):
        return builtin(I, name[9:], args, kw, fr, node)
    if name.startswith("numpy.random") or name.startswith("random.") or name in (
            "os.urandom", "uuid.uuid4", "uuid.uuid1", "secrets.randbits", "secrets.token_bytes"):
        rng_event(I, name, args, kw, fr, node)
        return I.ext(name, *[I.term(a, st) for a in args])
    if name.startswith("numpy."):
        r = numpy(I, name[6:], args, kw, fr, node)
        if r is not None:
            return r
    T_ = [I.term(a, st) for a in args]
    K_ = {k: I.term(v, st) for k, v in kw.items()}
    if name == "math.floor":
        return pw("floor", T_[0]) if num(T_[0]) is None else C(num(T_[0]).__floor__())
    if name == "math.ceil":
        return pw("ceil", T_[0]) if num(T_[0]) is None else C(num(T_[0]).__ceil__())
    if name == "math.sqrt":
        return power(T_[0], C(0.5))
    if name in ("math.hypot",):
        return power(add(power(T_[0], C(2)), power(T_[1], C(2))), C(0.5))
    if name in ("copy.deepcopy", "copy.copy"):
        return clone(I, args[0], fr, deep=name.endswith("deepcopy"))
    if name == "itertools.product" and not kw:
        its = [I.iterate(a, fr, node) for a in args]
        n = 1
        for it in its:
            n *= len(it.items) if it.items is not None and all(p is TRUE for p, _ in it.items) else 10 ** 6
        if n <= 300:
            rows = [()]
            for it in its:
                rows = [r + (v,) for r in rows for _, v in it.items]
            return IterV([(TRUE, r) for r in rows])
    if name == "itertools.product" or name.startswith("itertools."):
        return app(name, *T_, *[mk("kv", C(k), v) for k, v in K_.items()])
    if name in ("os.path.exists", "os.path.isfile", "os.path.isdir"):
        I.emit("query", name, node, st, args=T_)
        return truth(app(name, *T_)) if False else mk("truth", app(name, *T_))
    if name == "os.path.join" or name == "posixpath.join":
        return app("pathjoin", *T_)
    if name == "pathlib.Path":
        return T_[0] if len(T_) == 1 and T_[0].op in ("app", "ext", "sym") else app("Path", *T_)
    if name.startswith("os.path.") or name.startswith("re.") or name.startswith("platform.") or \
            name.startswith("math."):
        return app(name, *T_, *[mk("kv", C(k), v) for k, v in sorted(K_.items())])
    if name in ("time.time", "time.ctime", "time.strftime", "time.perf_counter", "time.monotonic",
                "datetime.datetime.now", "time.localtime", "time.time_ns"):
        I.emit("clock", name, node, st, args=T_)
        return I.ext(name, *T_)
    if name.startswith("scipy.ndimage.") or name.startswith("scipy.signal.") or name.startswith("scipy."):
        I.emit("call", name, node, st, args=T_, kwargs=K_)
        return I.new_arr(st, mk("aapp", name, *T_, *[mk("kv", C(k), v) for k, v in sorted(K_.items())]))
    if name.startswith("warnings."):
        I.emit("warn", name, node, st, args=T_)
        return NONE
    if name.startswith("abc.") or name.startswith("typing."):
        return unk("abc")
    if name == "functools.partial":
        return app(name, *T_)
    if name == "contextlib.suppress":
        return app(name, *T_)
    I.emit("call", name, node, st, args=T_, kwargs=K_, data=[a for a in args])
    return I.ext(name, *T_, *[mk("kv", C(k), v) for k, v in K_.items()])


def clone(I, v, fr, deep=False):
    st = fr.st
    if isinstance(v, Ref):
        r = I.rec(st, v)
        if v.kind == "arr":
            return I.new_arr(st, r.content, r.shape)
        if v.kind == "list":
            items = None if r.items is None else [clone(I, x, fr, True) if deep else x for x in r.items]
            return I.new_list(st, items, r.sym)
        if v.kind == "dict":
            return I.new_dict(st, {k: (p, clone(I, x, fr, True) if deep else x)
                                   for k, (p, x) in r.entries.items()}, r.base)
        if v.kind == "obj":
            return I.new_obj(st, r.cls, r.lazy, r.fields)
    return v


UFUNC = dict.fromkeys("maximum fmax minimum fmin hypot power float_power add subtract multiply divide true_divide "
                      "logical_and logical_or greater less greater_equal less_equal equal not_equal arctan2".split(), 2)
UFUNC.update(dict.fromkeys("abs sqrt square negative logical_not isnan isfinite isinf rint floor ceil exp log log10 "
                           "sin cos tan sign trunc".split(), 1))


def numpy(I, nm, args, kw, fr, node):
    st = fr.st
    nm = ALIAS.get(nm, nm)
    arity = UFUNC.get(nm)
    if arity is not None:
        if len(args) == arity + 1 and "out" not in kw:      # the output array given by position
            args, kw = args[:arity], dict(kw, out=args[arity])
        if isinstance(kw.get("out"), tuple) and len(kw["out"]) == 1:
            kw = dict(kw, out=kw["out"][0])
        if isinstance(kw.get("out"), T) and kw["out"] is NONE:
            kw = {k: v for k, v in kw.items() if k != "out"}
        if "where" not in kw or I.term(kw["where"], st) is TRUE:
            if set(kw) - {"out", "where", "dtype", "casting", "order", "subok"}:
                return unk("np.%s(%s)" % (nm, ", ".join(sorted(kw))))
            if "out" in kw or "dtype" in kw:
                rest = {k: v for k, v in kw.items() if k not in ("out", "dtype", "where")}
                r = numpy(I, nm, args, rest, fr, node)
                if r is None or r is NotImplemented:
                    return r
                if "dtype" in kw:
                    t = cast(I.term(r, st), kw["dtype"])
                    r = I.new_arr(st, t) if isinstance(r, Ref) else t
                if isinstance(kw.get("out"), Ref):
                    I.setitem(kw["out"], FULL, I.term(r, st), fr, node)
                    return kw["out"]
                return unk("out=") if "out" in kw else r
    if "where" in kw and nm not in ("where", "copyto") and I.term(kw["where"], st) is not TRUE:
        # elements outside the condition keep what the output array held
        rest = {k: v for k, v in kw.items() if k not in ("where", "out")}
        r = numpy(I, nm, args, rest, fr, node)
        if r is None or r is NotImplemented:
            return r
        t, cond = I.term(r, st), I.term(kw["where"], st)
        if not isinstance(r, Ref) and not is_array(t):
            return unk("where=")
        if isinstance(kw.get("out"), Ref):
            I.setitem(kw["out"], FULL, sel(cond, t, I.term(kw["out"], st)), fr, node)
            return kw["out"]
        return I.new_arr(st, sel(cond, t, unk("where=")))

    def shp_of(vs):
        for v in vs:
            if isinstance(v, Ref) and v.kind == "arr":
                s = I.rec(st, v).shape
                if s is not None:
                    return s
        return None

    def out(t, vs=()):
        if any(isinstance(v, Ref) and v.kind == "arr" for v in vs):
            r = I.new_arr(st, t, shp_of(vs))
            if "out" in kw and isinstance(kw["out"], Ref):
                I.setitem(kw["out"], FULL, t, fr, node)
            return r
        return t
    Tm = [I.term(a, st) for a in args]
    if nm in ("maximum", "fmax"):
        return out(tmax(Tm[0], Tm[1]), args)
    if nm in ("minimum", "fmin"):
        return out(tmin(Tm[0], Tm[1]), args)
    if nm == "clip":
        lo = Tm[1] if len(Tm) > 1 else I.term(kw.get("a_min", kw.get("min", NONE)), st)
        hi = Tm[2] if len(Tm) > 2 else I.term(kw.get("a_max", kw.get("max", NONE)), st)
        t = Tm[0]
        if lo is not NONE:
            t = tmax(t, lo)
        if hi is not NONE:
            t = tmin(t, hi)
        return out(t, args[:1])
    if nm == "abs":
        return out(tabs(Tm[0]), args)
    if nm == "sqrt":
        return out(power(Tm[0], C(0.5)), args)
    if nm == "square":
        return out(power(Tm[0], C(2)), args)
    if nm == "hypot":
        return out(power(add(power(Tm[0], C(2)), power(Tm[1], C(2))), C(0.5)), args)
    if nm == "power" or nm == "float_power":
        return out(power(Tm[0], Tm[1]), args)
    if nm in ("add", "subtract", "multiply", "divide", "true_divide"):
        op = {"add": "Add", "subtract": "Sub", "multiply": "Mult"}.get(nm, "Div")
        v = I.binop(op, args[0], args[1], fr, node)
        if "out" in kw and isinstance(kw["out"], Ref):
            I.setitem(kw["out"], FULL, v, fr, node)
        return v
    if nm == "negative":
        return out(neg(Tm[0]), args)
    if nm == "logical_and":
        return out(and_(Tm[0], Tm[1]), ())
    if nm == "logical_or":
        return out(or_(Tm[0], Tm[1]), ())
    if nm == "logical_not" or (nm == "invert" and is_bool(Tm[0])):
        return out(not_(Tm[0]), ())
    if nm in ("greater", "less", "greater_equal", "less_equal", "equal", "not_equal"):
        op = {"greater": "Gt", "less": "Lt", "greater_equal": "GtE", "less_equal": "LtE",
              "equal": "Eq", "not_equal": "NotEq"}[nm]
        return I.compare(op, args[0], args[1], fr, node)
    if nm == "where" and len(args) == 3:
        c = truth(Tm[0])
        return I.new_arr(st, sel(c, Tm[1], Tm[2]), shp_of(args))
    if nm in ("where", "nonzero") and len(args) == 1:
        return mk("where1", truth(Tm[0]))
    if nm in ("isnan", "isfinite", "isinf"):
        return truth(pwb(nm, Tm[0]))
    if nm in ("round", "around", "rint"):
        n = num(Tm[0])
        if "decimals" in kw and len(Tm) == 1:
            Tm = Tm + [I.term(kw["decimals"], st)]
        if len(Tm) > 1 and num(Tm[1]) == 0:
            Tm = Tm[:1]
        return out(C(round(n)) if n is not None and len(Tm) == 1 else pw("round", *Tm), args)
    if nm in ("floor", "ceil", "exp", "log", "log10", "sin", "cos", "tan", "arctan2", "sign", "trunc"):
        return out(pw(nm, *Tm), args)
    if nm in ("zeros", "empty", "ones", "full"):
        shape = Tm[0] if Tm else I.term(kw.get("shape", NONE), st)
        val = {"zeros": ZERO, "ones": ONE}.get(nm)
        if nm == "full":
            val = Tm[1] if len(Tm) > 1 else I.term(kw.get("fill_value", NONE), st)
        if nm == "empty":
            val = mk("aapp", "uninit", C(I.newid()))
        if isbool_dtype(kw, args, nm):
            val = TRUE if val is ONE else (FALSE if val is ZERO else val)
        return I.new_arr(st, val, shape, made_of(kw, args, nm))
    if nm in ("zeros_like", "ones_like", "full_like", "empty_like"):
        shape = I.shape_of(args[0], st) if isinstance(args[0], Ref) and args[0].kind == "arr" else app("shape", Tm[0])
        val = {"zeros_like": ZERO, "ones_like": ONE}.get(nm)
        if nm == "full_like":
            val = Tm[1] if len(Tm) > 1 else I.term(kw.get("fill_value", NONE), st)
        if nm == "empty_like":
            val = mk("aapp", "uninit", C(I.newid()))
        if isbool_dtype(kw, args, nm):
            val = TRUE if val is ONE else (FALSE if val is ZERO else val)
        return I.new_arr(st, val, shape, made_of(kw, args, nm) or
                         (I.dtypes.get(args[0].id) if isinstance(args[0], Ref) and args[0].kind == "arr" else None))
    if nm in ("copy", "asarray", "ascontiguousarray", "array", "float32", "float64", "int64", "asfarray",
              "int32", "bool_", "float16", "single", "atleast_1d", "atleast_2d"):
        a = args[0] if args else ZERO
        if nm in ("float32", "float64", "float16", "single"):
            if isinstance(a, Ref):
                return I.new_arr(st, cast(Tm[0], nm))
            if nm != "float64" and isinstance(a, T) and a.op == "sym" and not integral(a) and not is_bool(a):
                return pw(nm, a)
            if nm != "float64" and isinstance(a, T):
                I.narrowed.add(a)
            return a
        if nm in ("int64", "int32"):
            return to_int(Tm[0])
        dt = kw.get("dtype", args[1] if nm == "array" and len(args) > 1 else None)
        if nm in ("asarray", "ascontiguousarray") and isinstance(a, Ref) and a.kind == "arr" and not kw and len(args) == 1:
            return a
        if isinstance(a, Ref) and a.kind == "arr":
            r = I.rec(st, a)
            q = I.new_arr(st, cast(r.content, dt) if dt is not None else r.content, r.shape)
            if nm == "asarray" and dt is not None and "float32" in str(getattr(dt, "name", "")) and \
                    r.content.op == "sym" and r.content.args[0] in GRIDS and r.content.args[0] != "self.cell_type":
                I.shares[q.id] = (a, False)      # the grids are of that type already
            return q
        return I.new_arr(st, cast(as_arr(I, a, st), dt) if dt is not None else as_arr(I, a, st))
    if nm == "prod" and len(args) == 1 and not kw and isinstance(args[0], Ref) and args[0].kind == "list" and \
            I.rec(st, args[0]).items is not None:
        r = ONE
        for x in I.rec(st, args[0]).items:
            r = mul(r, I.term(x, st))
        return r
    if nm in ("sum", "max", "min", "amax", "amin") and len(args) == 1 and not kw and isinstance(args[0], Ref) and args[0].kind == "list" and \
            I.rec(st, args[0]).items and all(isc(I.term(x, st)) for x in I.rec(st, args[0]).items):
        vs = [I.term(x, st).args[0] for x in I.rec(st, args[0]).items]
        if all(type(v) is int for v in vs):
            return C({"s": sum, "x": max, "n": min}[nm[-1] if nm != "sum" else "s"](vs))
    if nm == "meshgrid" and len(args) == 2 and not kw:
        a = [I.term(x, st) for x in args]
        return tuple(I.new_arr(st, mk("aapp", "meshgrid%d" % k, *a)) for k in (0, 1))
    if nm == "arange":
        a = [ZERO] + Tm if len(Tm) == 1 else Tm
        return I.new_arr(st, mk("aapp", "arange", *a))
    if nm == "linspace" and len(Tm) == 3 and set(kw) <= {"endpoint"}:
        ep = I.term(kw["endpoint"], st) if "endpoint" in kw else TRUE
        if isc(ep):
            n = sub(Tm[2], ONE) if truth(ep) is TRUE else Tm[2]
            k = mk("aapp", "arange", ZERO, Tm[2])
            return I.new_arr(st, add(Tm[0], mul(k, div(sub(Tm[1], Tm[0]), n))))
    if nm == "ndenumerate":
        t = Tm[0]
        return IterV(None, lambda lid: (mk("elem", lid, "i", "s"), idx(t, mk("elem", lid, "i", "s"))), t)
    if nm == "ndindex":
        t = app("ndindex", *Tm)
        return IterV(None, lambda lid: (mk("elem", lid, "i", "s"), mk("elem", lid, "j", "s")), t)
    if nm == "load":
        I.emit("call", "numpy.load", node, st, args=Tm, kwargs={k: I.term(v, st) for k, v in kw.items()})
        return mk("ckpt", *Tm)
    if nm in ("savez", "savez_compressed", "save", "savetxt"):
        I.emit("call", "numpy." + nm, node, st, args=Tm, kwargs={k: I.term(v, st) for k, v in kw.items()},
               data=dict(kw))
        return NONE
    if nm in ("copyto",):
        if "where" in kw:
            I.setitem(args[0], FULL, sel(I.term(kw["where"], st), Tm[1], Tm[0]), fr, node)
        else:
            I.setitem(args[0], FULL, args[1], fr, node)
        return NONE
    if nm == "putmask" and len(Tm) == 3 and is_array(Tm[2]):
        I.setitem(args[0], FULL, sel(Tm[1], Tm[2], Tm[0]), fr, node)
        return NONE
    if nm == "nan_to_num" and args and num(I.term(kw.get("copy", NONE), st)) == 0:
        I.setitem(args[0], FULL, mk("aapp", "np.nan_to_num", Tm[0]), fr, node)
        return args[0]
    if nm in ("put", "place", "putmask", "fill_diagonal"):
        if isinstance(args[0], Ref) and args[0].kind == "arr" and len(args) > 2:
            I.setitem(args[0], args[1] if nm != "put" else mk("flat", Tm[1]), args[2], fr, node)
        return NONE
    if nm in NP_REDUCE:
        k = [mk("kv", C(a), I.term(b, st)) for a, b in sorted(kw.items())]
        if nm in ("any", "all"):
            if len(Tm) == 1 and not k:
                if isc(Tm[0]):
                    return truth(Tm[0])
                return app(nm, truth(Tm[0]))
            return app(nm, *Tm, *k)
        if nm in ("sum",) and ("axis" in kw or len(Tm) > 1):
            return I.new_arr(st, mk("aapp", nm, *Tm, *k))
        if nm in ("cumsum", "unique", "sort", "argsort", "diff", "nonzero", "argwhere", "flatnonzero"):
            return I.new_arr(st, mk("aapp", nm, *Tm, *k))
        return app(nm, *Tm, *k)
    if nm in NP_ARRAYS:
        k = [mk("kv", C(a), I.term(b, st)) for a, b in sorted(kw.items())]
        return I.new_arr(st, mk("aapp", nm, *Tm, *k))
    if nm.startswith("errstate") or nm.startswith("seterr"):
        return app(nm)
    return I.new_arr(st, mk("aapp", "np." + nm, *Tm, *[mk("kv", C(a), I.term(b, st)) for a, b in sorted(kw.items())])) \
        if not nm.startswith("_") else None


def pwb(nm, t):
    n = num(t)
    if n is not None:
        return {"isnan": FALSE, "isinf": FALSE, "isfinite": TRUE}[nm]
    return pw(nm, t)


def made_of(kw, args, nm):
    """element type an array is created with, where it is named"""
    d = kw.get("dtype")
    if d is None and len(args) > (2 if "full" in nm else 1):
        d = args[2 if "full" in nm else 1]
    return dtype_name(d) or None if d is not None else None


def isbool_dtype(kw, args, nm):
    d = kw.get("dtype")
    if d is None and len(args) > (2 if "full" in nm else 1):
        d = args[-1]
    return isinstance(d, ExtV) and d.name in ("builtins.bool", "numpy.bool_", "numpy.bool")


def as_arr(I, v, st):
    if isinstance(v, Ref) and v.kind == "list":
        r = I.rec(st, v)
        if r.items is not None:
            return mk("arr", *[as_arr(I, x, st) for x in r.items])
        return mk("aapp", "array", r.sym)
    if isinstance(v, tuple):
        return mk("arr", *[as_arr(I, x, st) for x in v])
    t = I.term(v, st)
    if t.op in ("list", "tuple"):
        return mk("arr", *t.args)
    return t


def builtin(I, nm, args, kw, fr, node):
    st = fr.st
    Tm = None

    def T_(i):
        return I.term(args[i], st)
    if nm == "range":
        a = [I.term(x, st) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0], ONE]
        elif len(a) == 2:
            a = a + [ONE]
        return app("range", *a)
    if nm == "len":
        v = args[0]
        if isinstance(v, tuple):
            return C(len(v))
        if isinstance(v, ViewV):
            v = v.ref
        if isinstance(v, Ref) and v.kind == "list" and I.rec(st, v).items is not None:
            return C(len(I.rec(st, v).items))
        if isinstance(v, Ref) and v.kind == "dict":
            r = I.rec(st, v)
            if r.base is None:
                n = ZERO
                for k, (p, x) in r.entries.items():
                    n = add(n, sel(p, ONE, ZERO))
                return n
        t = I.term(v, st)
        if t.op in ("list", "tuple", "arr"):
            return C(len(t.args))
        if isc(t) and isinstance(cval(t), str):
            return C(len(cval(t)))
        return app("len", t)
    if nm == "enumerate":
        it = I.iterate(args[0], fr, node)
        s0 = T_(1) if len(args) > 1 else I.term(kw.get("start", ZERO), st)
        if it.items is not None:
            if all(p is TRUE for p, _ in it.items):
                return IterV([(TRUE, (add(C(k), s0), v)) for k, (p, v) in enumerate(it.items)])
            n = s0
            out = []
            for p, v in it.items:
                out.append((p, (n, v)))
                n = add(n, sel(p, ONE, ZERO))
            return IterV(out)

        def make(lid):
            return (add(mk("elem", lid, "i", "s"), s0), it.make(lid))
        return IterV(None, make, it.desc)
    if nm == "zip":
        its = [I.iterate(a, fr, node) for a in args]
        if all(i.items is not None and all(p is TRUE for p, _ in i.items) for i in its):
            return IterV([(TRUE, tuple(v for _, v in row)) for row in zip(*[i.items for i in its])])
        terms = [I.term(a, st) for a in args]

        def make(lid):
            out = []
            for it, t in zip(its, terms):
                out.append(it.make(lid) if it.make else idx(t, mk("elem", lid, "i", "s")))
            return tuple(out)
        return IterV(None, make, app("zip", *terms))
    if nm in ("list", "tuple", "sorted", "reversed"):
        if not args:
            return I.new_list(st, []) if nm == "list" else ()
        it = I.iterate(args[0], fr, node)
        if it.items is not None and nm != "sorted":
            if all(p is TRUE for p, _ in it.items):
                vs = [v for _, v in it.items]
                if nm == "reversed":
                    vs = vs[::-1]
                return tuple(vs) if nm == "tuple" else I.new_list(st, vs)
            return it if nm != "reversed" else IterV(it.items[::-1])
        if it.items is not None and nm == "sorted":
            if all(p is TRUE and isinstance(v, T) and isc(v) and isinstance(cval(v), str) for p, v in it.items) and not kw:
                return I.new_list(st, [v for _, v in sorted(it.items, key=lambda q: cval(q[1]))])
            return it
        t = I.term(args[0], st)
        if (t.op == "app" and t.args[0].startswith("view.")) or (t.op == "attr" and t.args[1] in ("variables", "groups", "dimensions")):
            return IterV(None, it.make, it.desc)
        if nm in ("list", "tuple"):
            return I.new_list(st, None, t)
        return I.new_list(st, None, app(nm, t))
    if nm == "dict":
        d = I.new_dict(st)
        if args:
            if isinstance(args[0], Ref) and args[0].kind == "dict":
                d = clone(I, args[0], fr)
            else:
                it = I.iterate(args[0], fr, node)
                if it.items is not None:
                    ent = {}
                    for p, v in it.items:
                        k, x = I.unpack(v, 2, fr, node)
                        ent[I.dkey(k, st)] = (p, x)
                    st.heap[d.id] = DictRec(ent)
                else:
                    st.heap[d.id] = DictRec({}, I.term(args[0], st))
        if kw:
            r = I.rec(st, d)
            e = dict(r.entries)
            base = r.base
            for k, v in kw.items():
                if k == "**":
                    base = v if base is None else mk("dupdate", base, v)
                else:
                    e[k] = (TRUE, v)
            st.heap[d.id] = DictRec(e, base)
        return d
    if nm in ("set", "frozenset"):
        if not args:
            return app("set")
        it = I.iterate(args[0], fr, node)
        if it.items is not None and all(p is TRUE for p, _ in it.items):
            return app("set", *[I.term(v, st) for _, v in it.items])
        return app("setof", I.term(args[0], st))
    if nm == "int":
        if not args:
            return ZERO
        return to_int(T_(0))
    if nm == "float":
        if not args:
            return ZERO
        t = T_(0)
        if isc(t) and isinstance(cval(t), str) and not cval(t).endswith("#float"):
            try:
                return C(float(cval(t)))
            except ValueError:
                return app("float", t)
        return t
    if nm == "bool":
        return truth(T_(0))
    if nm == "str":
        t = T_(0)
        if isc(t) and isinstance(cval(t), str):
            return t
        if isc(t):
            return C(str(cval(t)))
        return app("str", t)
    if nm == "abs":
        return tabs(T_(0))
    if nm in ("min", "max"):
        f = tmin if nm == "min" else tmax
        if len(args) > 1:
            r = T_(0)
            for i in range(1, len(args)):
                r = f(r, T_(i))
            return r
        it = I.iterate(args[0], fr, node)
        if it.items is not None and it.items and all(p is TRUE for p, _ in it.items):
            r = I.term(it.items[0][1], st)
            for p, v in it.items[1:]:
                r = f(r, I.term(v, st))
            return r
        return app(nm, T_(0))
    if nm == "sum":
        it = I.iterate(args[0], fr, node)
        if it.items is not None:
            r = ZERO
            for p, v in it.items:
                r = add(r, sel(p, I.term(v, st), ZERO))
            return r
        return app("sum", T_(0))
    if nm == "round":
        n = num(T_(0))
        if n is not None and len(args) == 1:
            return C(round(n))
        return pw("round", *[I.term(a, st) for a in args])
    if nm == "pow":
        return power(T_(0), T_(1))
    if nm == "divmod":
        return (mk("floordiv", T_(0), T_(1)), mk("mod", T_(0), T_(1)))
    if nm in ("any", "all"):
        it = I.iterate(args[0], fr, node)
        if it.items is not None:
            if nm == "any":
                return or_(*[and_(p, truth(I.term(v, st))) for p, v in it.items])
            return and_(*[or_(not_(p), truth(I.term(v, st))) for p, v in it.items])
        return app(nm, I.term(args[0], st))
    if nm == "isinstance":
        v, c = args[0], args[1]
        names = []
        for x in (c if isinstance(c, tuple) else (c,)):
            names.append(x.name if isinstance(x, (ExtV, ClassV)) else "?")
        names = [q.split(".")[-1] for q in names]
        if isinstance(v, Ref):
            k = {"arr": "ndarray", "list": "list", "dict": "dict"}.get(v.kind)
            if v.kind in ("list", "dict") and not any(q in ("?", "object") for q in names):
                return TRUE if k in names else FALSE
            if v.kind == "obj":
                cls = I.rec(st, v).cls
                if cls is not None:
                    mro = [getattr(q, "name", "?") for q in cls.mro()]
                    return TRUE if any(q in mro for q in names) else FALSE
        t = I.term(v, st)
        if isc(t):
            kind = type(cval(t)).__name__
            if isinstance(cval(t), str):
                return TRUE if "str" in names else FALSE
            if kind == "bool":
                return TRUE if ("bool" in names or "int" in names) else FALSE
            if cval(t) is None:
                return TRUE if "NoneType" in names else FALSE
            if num(t) is not None and "?" not in names:
                if num(t).denominator == 1:
                    if "int" in names:
                        return TRUE
                elif "float" in names:
                    return TRUE
                elif not set(names) & {"Number", "Real", "floating", "object", "generic", "number"}:
                    return FALSE
                if not set(names) & {"int", "float", "Number", "Integral", "Real", "integer", "floating", "object", "generic", "number"}:
                    return FALSE
        return mk("truth", app("isinstance", t, C("|".join(sorted(names)))))
    if nm == "type":
        if isinstance(args[0], Ref) and args[0].kind in ("list", "dict"):
            return mk("fn", "ext:builtins." + args[0].kind)
        if isinstance(args[0], tuple):
            return mk("fn", "ext:builtins.tuple")
        t = T_(0)
        if isc(t):
            v = cval(t)
            n = "NoneType" if v is None else type(v).__name__
            return mk("fn", "ext:builtins." + n)
        return app("type", t)
    if nm == "hasattr":
        v, n = args[0], T_(1)
        if isinstance(v, Ref) and v.kind == "obj" and isc(n):
            r = I.rec(st, v)
            if r.cls is not None and r.cls.find(cval(n)) is not None:
                return TRUE
            if cval(n) in r.fields:
                x = r.fields[cval(n)]
                if isinstance(x, T) and any(q is UNDEF for q in subterms(x)):
                    return mk("truth", app("hasattr", I.term(v, st), n))
                return TRUE
            if r.lazy is None:
                return FALSE
        return mk("truth", app("hasattr", I.term(v, st), n))
    if nm == "getattr":
        n = T_(1)
        if isc(n):
            v = I.getattr(args[0], cval(n), fr, node)
            return v
        I.emit("dyngetattr", "getattr", node, st, args=[I.term(args[0], st), n])
        return app("getattr", I.term(args[0], st), n)
    if nm == "setattr":
        n = T_(1)
        if isc(n):
            I.setattr(args[0], cval(n), args[2], fr, node)
            return NONE
        I.emit("dynsetattr", "setattr", node, st, data=args[0], args=[n, T_(2)])
        return NONE
    if nm == "vars":
        return app("vars", T_(0))
    if nm == "super":
        return unk("super")
    if nm == "print":
        I.emit("call", "print", node, st, args=[I.term(a, st) for a in args])
        return NONE
    if nm == "eval":
        t = T_(0)
        if isc(t) and cval(t) in ("int", "float", "bool", "str", "list", "dict", "tuple", "complex"):
            return mk("fn", "ext:builtins." + cval(t))
        return app("eval", t)
    if nm == "callable":
        return mk("truth", app("callable", T_(0)))
    if nm in ("iter",):
        return I.iterate(args[0], fr, node)
    if nm == "next":
        it = args[0] if isinstance(args[0], IterV) else I.iterate(args[0], fr, node)
        if it.items:
            return it.items[0][1]
        return app("next", I.term(args[0], st))
    if nm in ("map", "filter"):
        it = I.iterate(args[1], fr, node)
        if it.items is not None:
            if nm == "map":
                return IterV([(p, I.call(args[0], [v], {}, fr, node)) for p, v in it.items])
            return IterV([(and_(p, truth(I.term(I.call(args[0], [v], {}, fr, node), st))), v) for p, v in it.items])
        return app(nm, I.term(args[0], st), I.term(args[1], st))
    if nm == "slice":
        a = [I.term(x, st) for x in args]
        if len(a) == 1:
            a = [NONE, a[0]]
        while len(a) < 3:
            a.append(NONE)
        return mk("slice", *a)
    if nm == "open":
        t = [I.term(a, st) for a in args]
        k = {a: I.term(b, st) for a, b in kw.items()}
        I.emit("call", "open", node, st, args=t, kwargs=k)
        return mk("file", *t, *[v for _, v in sorted(k.items())])
    if nm == "property":
        return unk("property")
    if nm == "id" or nm == "hash":
        return app(nm, T_(0))
    if nm.endswith("Error") or nm.endswith("Exception") or nm.endswith("Warning"):
        return mk("excvar", nm, *[I.term(a, st) for a in args])
    if nm in ("object", "format", "repr", "chr", "ord"):
        return app(nm, *[I.term(a, st) for a in args])
    I.unmodelled.append(("builtin " + nm, I.where(node)))
    return unk("builtin:" + nm, *[I.term(a, st) for a in args])


def method(I, recv, name, args, kw, fr, node):
    st = fr.st
    Tm = [I.term(a, st) for a in args]
    Km = {k: I.term(v, st) for k, v in kw.items()}
    # ---- dict
    if isinstance(recv, Ref) and recv.kind == "dict":
        r = I.rec(st, recv)
        if name in ("keys", "items", "values"):
            return ViewV(recv, name)
        if name == "get":
            p, v = I.dict_lookup(recv, args[0], st)
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            if p is TRUE or v is d:
                return v
            if v is UNDEF or p is FALSE:
                return d
            return I.merge_val(p, v, d, st, st, st)
        if name == "pop":
            p, v = I.dict_lookup(recv, args[0], st)
            I.dict_del(recv, args[0], fr, node)
            if len(args) > 1:
                if v is UNDEF:
                    return args[1]
                return I.merge_val(p, v, args[1], st, st, st) if p is not TRUE else v
            return v
        if name == "update":
            if args:
                I.dict_update(recv, args[0], fr, node)
            for k, v in kw.items():
                if k != "**":
                    I.dict_set(recv, C(k), v, fr, node)
            return NONE
        if name == "copy":
            return clone(I, recv, fr)
        if name == "setdefault":
            p, v = I.dict_lookup(recv, args[0], st)
            d = args[1] if len(args) > 1 else NONE
            if p is TRUE:
                return v
            nv = d if v is UNDEF else I.merge_val(p, v, d, st, st, st)
            I.dict_set(recv, args[0], nv, fr, node)
            return nv
        if name == "clear":
            st.heap[recv.id] = DictRec({}, None)
            I.emit("dictclear", "clear", node, st, data=(recv,))
            return NONE
        if name == "__contains__":
            return I.contains(args[0], recv, fr)
    # ---- list
    if isinstance(recv, Ref) and recv.kind == "list":
        r = I.rec(st, recv)
        if name == "append":
            I.emit("append", "append", node, st, data=(recv, Tm[0], args[0]))
            if r.items is not None:
                st.heap[recv.id] = ListRec(r.items + (args[0],))
            else:
                st.heap[recv.id] = ListRec(None, mk("app", "append", r.sym, Tm[0]))
            return NONE
        if name == "extend":
            I.list_extend(recv, args[0], fr, node)
            return NONE
        if name == "copy":
            return clone(I, recv, fr)
        if name == "remove" and r.items is not None:
            items = list(r.items)
            for k, x in enumerate(items):
                if I.term(x, st) is Tm[0]:
                    items.pop(k)
                    break
            st.heap[recv.id] = ListRec(tuple(items))
            return NONE
        if name == "pop" and r.items is not None and (not args or num(Tm[0]) is not None):
            items = list(r.items)
            v = items.pop(int(num(Tm[0])) if args else -1) if items else unk("pop")
            st.heap[recv.id] = ListRec(tuple(items))
            return v
        if name == "insert" and r.items is not None and num(Tm[0]) is not None:
            items = list(r.items)
            items.insert(int(num(Tm[0])), args[1])
            st.heap[recv.id] = ListRec(tuple(items))
            return NONE
        if name in ("index", "count"):
            return app("list." + name, I.term(recv, st), *Tm)
        if name in ("remove", "pop", "insert", "sort", "reverse", "clear"):
            old = I.term(recv, st)
            st.heap[recv.id] = ListRec(None, mk("app", "list." + name, old, *Tm))
            return app("list." + name + ".value", old, *Tm)
    if isinstance(recv, IterV):
        if name == "remove":
            items = []
            for p, v in recv.items or []:
                if I.term(v, st) is Tm[0]:
                    continue
                items.append((p, v))
            recv.items = items
            return NONE
        if name == "append":
            recv.items.append((TRUE, args[0]))
            return NONE
        return app("iter." + name, I.term(recv, st), *Tm)
    # ---- views
    if isinstance(recv, ViewV):
        if name in ("keys", "items", "values"):
            return recv
        if recv.kind == "flat":
            return method(I, recv.ref, name, args, kw, fr, node)
        return app("view." + name, I.term(recv, st), *Tm)
    # ---- arrays
    isarr = isinstance(recv, Ref) and recv.kind == "arr"
    if isarr or (isinstance(recv, T) and (is_array(recv) or recv.op in ("aapp", "arr"))):
        t = I.term(recv, st)
        shp = I.rec(st, recv).shape if isarr else None
        if name == "copy":
            return I.new_arr(st, t, shp)
        if name == "astype":
            d = args[0] if args else kw.get("dtype")
            if isinstance(d, ExtV) and d.name in ("builtins.bool", "numpy.bool_"):
                return I.new_arr(st, truth(t) if not isc(t) else truth(t), shp)
            return I.new_arr(st, cast(t, d), shp)
        if name in ("flatten", "ravel"):
            if t.op == "arr" and t.args and t.args[0].op == "arr":
                return I.new_arr(st, mk("arr", *[x for row in t.args for x in row.args]))
            if t.op == "arr" or isc(t):
                return I.new_arr(st, t)
            r = I.new_arr(st, ravel(t), app("ravelshape", shp) if shp is not None else None)
            if name == "ravel" and isarr:
                I.shares[r.id] = (recv, True)
            return r
        if name == "reshape":
            if t.op == "aapp" and t.args[0] == "flat":
                return I.new_arr(st, t.args[1], Tm[0] if Tm else None)
            r = I.new_arr(st, unflat(t, args, Tm), Tm[0] if Tm else None)
            if isarr:
                I.shares[r.id] = (recv, len(Tm) == 1 and num(Tm[0]) == -1)
            return r
        if name in ("any", "all"):
            return app(name, truth(t), *[mk("kv", C(k), v) for k, v in sorted(Km.items())])
        if name in ("sum", "max", "min", "mean", "prod", "cumsum", "argmax", "std"):
            if "axis" in Km or Tm or name == "cumsum":
                return I.new_arr(st, mk("aapp", name, t, *Tm, *[mk("kv", C(k), v) for k, v in sorted(Km.items())]))
            return app(name, t)
        if name == "take":
            return idx(t, Tm[0]) if not is_array(Tm[0]) else I.new_arr(st, mk("aapp", "take", t, *Tm))
        if name == "fill":
            I.setitem(recv, FULL, args[0], fr, node)
            return NONE
        if name in ("sort", "partition", "put", "itemset", "resize", "byteswap") and isinstance(recv, Ref):
            I.setitem(recv, FULL, mk("aapp", "." + name, t, *Tm), fr, node)
            return NONE
        if name in ("item", "tolist"):
            return app(name, t, *Tm)
        if name in ("clip",):
            lo, hi = (Tm + [NONE, NONE])[:2]
            lo, hi = Km.get("min", lo), Km.get("max", hi)
            r = t
            if lo is not NONE:
                r = tmax(r, lo)
            if hi is not NONE:
                r = tmin(r, hi)
            o = args[2] if len(args) > 2 else kw.get("out")
            if isinstance(o, Ref) and o.kind == "arr":
                I.setitem(o, FULL, r, fr, node)
                return o
            return I.new_arr(st, r, shp)
        if name in ("transpose", "squeeze", "round", "nonzero"):
            return I.new_arr(st, mk("aapp", name, t, *Tm))
        if isarr and isinstance(t, T) and t.op == "sym":
            # an attribute used as an external object
            return I.call_extmethod(t, name, args, kw, fr, node)
        return I.new_arr(st, mk("aapp", "." + name, t, *Tm))
    # ---- strings and other terms
    t = I.term(recv, st)
    if isc(t) and isinstance(cval(t), str):
        s = cval(t)
        if name == "join" and args:
            it = I.iterate(args[0], fr, node)
            if it.items is not None and all(p is TRUE for p, _ in it.items):
                parts = [I.term(v, st) for _, v in it.items]
                if all(isc(p) and isinstance(cval(p), str) for p in parts):
                    return C(s.join(cval(p) for p in parts))
                r = None
                for p in parts:
                    r = p if r is None else add(r, add(C(s), p) if s else p)
                return r if r is not None else C("")
            return app("strjoin", t, Tm[0])
        if name in ("upper", "lower", "title", "capitalize", "swapcase") and not args:
            return C(getattr(s, name)())
        if not Km and all(isc(x) and isinstance(cval(x), (str, int)) and not isinstance(cval(x), bool) for x in Tm):
            a = [cval(x) for x in Tm]
            try:
                if name in ("split", "rsplit", "splitlines"):
                    return I.new_list(st, [C(x) for x in getattr(s, name)(*a)])
                if name in ("strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "ljust", "rjust"):
                    return C(getattr(s, name)(*a))
                if name in ("startswith", "endswith", "isdigit", "isidentifier"):
                    return TRUE if getattr(s, name)(*a) else FALSE
            except (TypeError, ValueError):
                pass
        if name == "zfill" and num(Tm[0]) is not None:
            return C(s.zfill(int(num(Tm[0]))))
        if name == "format" and not Km and len(Tm) > 1 and s.count("{}") == len(Tm) and s.replace("{}", "").count("{") == 0:
            parts = s.split("{}")
            out = [C(parts[0])]
            for v, q in zip(Tm, parts[1:]):
                out += [v, C(q)]
            return concat(*out)
        return app("str." + name, t, *Tm, *[mk("kv", C(k), v) for k, v in sorted(Km.items())])
    if isinstance(recv, Ref) and recv.kind == "obj":
        r = I.rec(st, recv)
        I.emit("call", "." + name, node, st, data=t, args=Tm, kwargs=Km)
        return I.ext("." + name, t, *Tm)
    if name in ("is_dir", "is_file", "exists"):
        I.emit("query", "." + name, node, st, args=[t])
        nm = {"is_dir": "os.path.isdir", "is_file": "os.path.isfile", "exists": "os.path.exists"}[name]
        return mk("truth", app(nm, t))
    if t.op == "app" and t.args[0] in ("set", "setof") and name in ("add", "discard"):
        return NONE
    if name in ("keys", "items", "values"):
        return ViewV(t, name)
    if name == "get" and args:
        p, v = I.base_lookup(t, Tm[0])
        d = Tm[1] if len(Tm) > 1 else NONE
        if v is UNDEF:
            return d
        return sel(p, v, d)
    if name == "copy" and t.op in ("ext", "idx", "sym", "dupdate", "dict", "sel", "yaml", "elem"):
        I.emit("copy", "copy", node, st, data=t)
        if t.op == "idx" and isinstance(t.args[0], T) and "ckpt" in t.args[0].op:
            return I.new_arr(st, t)
        return I.new_dict(st, {}, t)
    from .interp import PURE_METHODS
    if name in PURE_METHODS:
        return app("m." + name, t, *Tm, *[mk("kv", C(k), v) for k, v in sorted(Km.items())])
    return I.call_extmethod(t, name, args, kw, fr, node)


def ravel(t):
    """layout change distributes over pointwise operations"""
    if t.op in POINTWISE and is_array(t):
        return rebuild(t.op, [ravel(a) if isinstance(a, T) and is_array(a) else a for a in t.args])
    if t.op == "aapp" and t.args[0] == "ravel":
        return t
    if not is_array(t):
        return t
    return mk("aapp", "ravel", t)


def unflat(t, args, Tm):
    """x.flat[:]...reshape(x.shape): undo the flattening of each leaf"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == "aapp" and x.args[0] == "flat":
            r = x.args[1]
        elif x.op in POINTWISE:
            r = rebuild(x.op, [go(a) for a in x.args])
        else:
            r = x
        memo[x] = r
        return r
    if any(x.op == "aapp" and x.args[0] == "flat" for x in subterms(t)):
        return go(t)
    return mk("aapp", "reshape", t, *Tm)
