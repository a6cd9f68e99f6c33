"""Rules about configuration: resolution, parameter domains, derived quantities, initial layout."""
import ast
import os
import re

from ..core import *
from ..interp import Frame, ViewV
from .output import seti
from ..terms import is_array
from ..terms import mul as mul2


def mul(*a):
    r = a[0]
    for x in a[1:]:
        r = mul2(r, x)
    return r


# ------------------------------------------------------------------ default.yml
def scalar(s):
    s = s.strip()
    if s in ("null", "~", "", "None") and s != "None":
        return None
    if s in ("True", "true"):
        return True
    if s in ("False", "false"):
        return False
    if s[:1] in "'\"":
        return s[1:-1]
    if s.startswith("["):
        return [scalar(x) for x in s[1:-1].split(",")]
    try:
        return int(s)
    except ValueError:
        pass
    try:
        return float(s)
    except ValueError:
        return s


def defaults(c):
    """entries of default.yml, in order (plain two-level mapping)"""
    if "defaults" in c.cache:
        return c.cache["defaults"]
    p = os.path.join(c.root, "pyDeltaRCM", "default.yml")
    out = {}
    cur = None
    if os.path.exists(p):
        for ln in open(p):
            ln = re.sub(r"\s#.*$|^#.*$", "", ln.rstrip("\n"))
            if not ln.strip():
                continue
            m = re.match(r"^(\s*)([A-Za-z_0-9'\"]+)\s*:\s*(.*)$", ln)
            if not m:
                raise ValueError("default.yml not understood: %r" % ln)
            k = m.group(2).strip("'\"")
            if not m.group(1):
                cur = {}
                out[k] = cur
            else:
                cur[k] = scalar(m.group(3))
    c.cache["defaults"] = out
    return out


def types_of(v):
    t = v.get("type")
    return t if isinstance(t, list) else [t]


# ------------------------------------------------------------------ P10
def entry(I, st, v):
    t = v["type"]
    tv = I.new_list(st, [C(x) for x in t]) if isinstance(t, list) else C(t)
    return I.new_dict(st, {"type": (TRUE, tv), "default": (TRUE, dval(v["_k"]))})


def dval(k):
    return sym("default.%s" % k)


def P(name):
    return truth(sym("given." + name))


def config_run(c, custom=None, nofile=False):
    D = defaults(c)
    custom = custom or {}
    keys = list(D) + [k for k in custom if k not in D]

    def yload(I, args, kw, fr, node):
        t = I.term(args[0], fr.st)
        if any(x.op == "sym" and str(x.args[0]).endswith("default_file") for x in subterms(t)):
            return I.new_dict(fr.st, {k: (TRUE, entry(I, fr.st, dict(v, _k=k))) for k, v in D.items()})
        if any(x.op == "sym" and str(x.args[0]).endswith("input_file") for x in subterms(t)):
            return I.new_dict(fr.st, {k: (P("file." + k), sym("file." + k)) for k in keys})
        return NotImplemented

    def pre(I, st, o):
        I.ext_override["yaml.load"] = yload
        I.ext_override["yaml.safe_load"] = yload
        seti(I, st, o, "subclass_parameters", I.new_dict(st, {
            k: (TRUE, entry(I, st, dict(v, _k="custom." + k))) for k, v in custom.items()}))
        if nofile:
            seti(I, st, o, "input_file", NONE)

    def kwd(I, st, o):
        return I.new_dict(st, {k: (P("kw." + k), sym("kw." + k)) for k in keys})
    return c.run_method("import_files", args=[kwd], pre=pre, key=("cfg", tuple(custom), nofile))


def resolved(R):
    v = R.raw("_input_file_vars")
    return v, R.I.rec(R.st, v)


def okt(val, types):
    return or_(*[eq(app("type", val), mk("fn", "ext:builtins." + ("NoneType" if t in ("None", None) else t))) for t in types])


def about_key(p, k):
    names = {"given.kw." + k, "given.file." + k, "kw." + k, "file." + k}
    return any(x.op == "sym" and x.args[0] in names for x in subterms(p))


def resolve_obligations(c, R, spec, what, nofile=False, reserved=()):
    """spec: key -> (types, default term)"""
    v, r = resolved(R)
    if not (isinstance(v, Ref) and v.kind == "dict") or r.base is not None:
        return c.unk("configuration table (%s)" % what, R.where, "not a known table")
    inp = FALSE if nofile else truth(c.s("input_file"))
    wh = R.last_store("_input_file_vars")
    esc = [x for x in R.escapes() if x.cls == "TypeError"]
    other = [x for x in R.escapes() if x.cls not in ("TypeError",) and any(about_key(p, k) for p in x.st.pc[-1:] for k in spec)]
    for x in other:
        c.bad("no other error while resolving (%s)" % what, x.where if hasattr(x, "where") else R.where, x.cls)
    for k, (types, dflt) in spec.items():
        kw, fl = P("kw." + k), and_(inp, P("file." + k))
        given = or_(kw, fl)
        val = sel(kw, sym("kw." + k), sym("file." + k))
        p, got = r.entries.get(k, (FALSE, UNDEF))
        ok = or_(not_(given), okt(val, types))
        got = R.term(got) if not isinstance(got, T) else got
        if k in r.entries:
            want = sel(given, val, dflt)
            c.equal("%s: keyword, then file, then default (%s)" % (k, what), sel(and_(p, ok), got, want), want, wh)
            c.implied("%s: always in the table (%s)" % (k, what), ok, p, wh, why="missing")
        else:
            c.bad("%s: keyword, then file, then default (%s)" % (k, what), wh, "not in the table")
        mine = [q for q in R.st.pc if about_key(q, k)]
        c.implied("%s: a value of an undeclared type never passes (%s)" % (k, what), and_(*mine), ok, wh,
                  why="accepted")
        for x in esc:
            cond = [q for q in x.st.pc[-3:] if about_key(q, k)]
            last = x.st.pc[-1]
            if about_key(last, k):
                c.implied("%s: a value of a declared type is accepted (%s)" % (k, what), and_(*cond), not_(ok),
                          R.where, why="type error raised")


def p10(c):
    D = defaults(c)
    if len(D) < 20:
        return c.unk("defaults", "pyDeltaRCM/default.yml", "table not understood")
    for k, v in D.items():
        if "type" not in v or "default" not in v:
            c.bad("%s: declared with type and default" % k, "pyDeltaRCM/default.yml", "incomplete entry")
    spec = {k: (types_of(v), dval(k)) for k, v in D.items()}
    R = config_run(c)
    if R is None:
        return c.unk("import_files", "", "not found")
    resolve_obligations(c, R, spec, "built-in")
    # the default must itself be of a declared type
    for k, v in D.items():
        d = v.get("default")
        n = "NoneType" if d is None else type(d).__name__
        ts = ["NoneType" if t in ("None", None) else t for t in types_of(v)]
        if n in ts or (n == "int" and "float" in ts):
            c.ok("%s: default has a declared type" % k, "pyDeltaRCM/default.yml")
        else:
            c.bad("%s: default has a declared type" % k, "pyDeltaRCM/default.yml", "%r is not %s" % (d, ts))
    R = config_run(c, nofile=True)
    some = ("u0", "seed", "save_dt", "hb")
    resolve_obligations(c, R, {k: spec[k] for k in some if k in spec}, "no input file", nofile=True)
    custom = {"$custom_a": {"type": "int"}, "$custom_b": {"type": ["float", "None"]}, "u0": {"type": "str"}}
    R = config_run(c, custom=custom)
    sp = {"$custom_a": (["int"], dval("custom.$custom_a")), "$custom_b": (["float", "None"], dval("custom.$custom_b"))}
    if "u0" in spec:
        sp["u0"] = spec["u0"]
    resolve_obligations(c, R, sp, "custom parameters")
    p10_set(c, D)
    p10_init(c)
    p10_unused(c)


def p10_unused(c):
    """what no parameter uses is reported, not silently dropped; what is used, or belongs to the preprocessor's clock, is not"""
    D = defaults(c)

    def run(keys, where):
        def yload(I, args, kw, fr, node):
            t = I.term(args[0], fr.st)
            if any(x.op == "sym" and str(x.args[0]).endswith("default_file") for x in subterms(t)):
                return I.new_dict(fr.st, {k: (TRUE, entry(I, fr.st, dict(v, _k=k))) for k, v in D.items()})
            return I.new_dict(fr.st, {k: (TRUE, sym("file." + k)) for k in keys} if where == "file" else {})

        def pre(I, st, o):
            I.ext_override["yaml.load"] = yload
            I.ext_override["yaml.safe_load"] = yload
            seti(I, st, o, "subclass_parameters", I.new_dict(st, {}))
            seti(I, st, o, "input_file", NONE if where == "kw" else C("in.yml"))

        def kwd(I, st, o):
            return I.new_dict(st, {k: (TRUE, sym("kw." + k)) for k in keys} if where == "kw" else {})
        return c.run_method("import_files", args=[kwd], pre=pre, key=("unused", where, tuple(keys)))
    for where, txt in (("kw", "keyword"), ("file", "input file")):
        for k, rep in (("$mystery", True), ("matrix", True), ("set", True), ("ensemble", True), ("timesteps", False), ("time", False),
                       ("time_years", False), ("u0", False)):
            R = run((k,), where)
            if R is None:
                return
            ob = "%s '%s': %s" % (txt, k, "reported as unused" if rep else "not reported")
            wn = [e for e in R.events if e.kind == "warn" and e.name.startswith("warnings.warn")]
            sure = [e for e in wn if all(about_key(p, k) for p in R.guards(e))]
            if rep and sure or not rep and not wn:
                c.ok(ob, at(wn[0]) if wn else R.where)
            elif rep and not wn:
                c.bad(ob, R.where, "dropped without a warning")
            elif not rep and sure and not any(x.op in ("unk", "comp") for p in R.guards(sure[0]) for x in subterms(p)):
                c.bad(ob, at(sure[0]), "warned about")
            else:
                c.unk(ob, at(wn[0]), "condition of the warning: %s" % show(and_(*R.guards(wn[0])))[:80])


def transform(c, k, v, val):
    if k == "active_layer_thickness":
        return sel(eq(v, NONE), div(val("h0"), C(2)), v)
    if k == "checkpoint_dt":
        return sel(eq(v, NONE), val("save_dt"), v)
    if k == "resume_checkpoint":
        return None
    return v


def p10_set(c, D):
    """every resolved value reaches the model"""
    def val(k):
        return sym("cfg." + k)

    def pre(I, st, o):
        e = {k: (TRUE, val(k)) for k in D}
        e["$custom"] = (TRUE, val("$custom"))
        from .output import lists
        lists(I, st, o)
        seti(I, st, o, "_input_file_vars", I.new_dict(st, e))
    R = c.run_method("process_input_to_model", pre=pre, key="p10set")
    if R is None:
        return c.unk("values set on the model", "", "process_input_to_model not found")
    for k in list(D) + ["$custom"]:
        want = transform(c, k, val(k), val)
        if want is None:
            b = mk("truth", app("isinstance", val(k), C("str")))
            want = sel(b, TRUE, val(k))
        got = R.prop(k)
        live = and_(*[p for p in R.st.pc if any(x is val(k) for x in subterms(p)) or k in ("active_layer_thickness", "dx")])
        c.equal("%s: resolved value is set on the model" % k, sel(live, got, want), want,
                R.last_store("_" + k) if k != "$custom" else R.where)
    w = c.s("prefix")
    c.equal("checkpoint folder follows the resume option", R.field("_checkpoint_folder"),
            sel(mk("truth", app("isinstance", val("resume_checkpoint"), C("str"))), val("resume_checkpoint"), R.field("prefix")),
            R.last_store("_checkpoint_folder"))


def p10_init(c):
    from .state import mentions  # noqa
    R = c.run_method("__init__", kw={"input_file": sym("input_file"), "defer_output": sym("defer_output")}, key="init10")
    if R is None:
        return c.unk("construction", "", "not analysed")
    first = {}
    for nm in ("import_files", "process_input_to_model", "create_other_variables", "create_domain"):
        es = R.enters(nm)
        if not es:
            c.unk("construction resolves, then sets, then uses the configuration", R.where, "%s not called" % nm)
            return
        first[nm] = (R.events.index(es[0]), es)
    order = [first[n][0] for n in ("import_files", "process_input_to_model", "create_other_variables", "create_domain")]
    ob = "construction resolves, then sets, then uses the configuration"
    if order != sorted(order):
        c.bad(ob, at(first["process_input_to_model"][1][0]), "order changed")
    else:
        bad = [e for n in first for e in first[n][1] if R.guards(e)]
        if bad:
            c.bad(ob, at(bad[0]), "only when %s" % show(R.guards(bad[0])[0])[:80])
        else:
            c.ok(ob, at(first["import_files"][1][0]))


# ------------------------------------------------------------------ P11
DOM = {
    "Length": lambda v, s: lt(ZERO, v), "Width": lambda v, s: lt(ZERO, v),
    "dx": lambda v, s: and_(lt(ZERO, v), le(v, s("_Length")), le(v, s("_Width"))),
    "L0_meters": lambda v, s: le(ZERO, v), "itermax": lambda v, s: le(ZERO, v),
    "Np_water": lambda v, s: lt(ZERO, v), "N0_meters": lambda v, s: lt(ZERO, v),
    "If": lambda v, s: and_(lt(ZERO, v), le(v, ONE)), "Np_sed": lambda v, s: lt(ZERO, v),
    "f_bedload": lambda v, s: and_(le(ZERO, v), le(v, ONE)),
    "active_layer_thickness": lambda v, s: or_(eq(v, NONE), le(ZERO, v)),
    "C0_percent": lambda v, s: le(ZERO, v), "Csmooth": lambda v, s: le(ZERO, v)}
# same domain through the alternative names of a parameter
ALIAS = {"bedload_fraction": ("f_bedload", lambda v: v), "channel_width": ("N0_meters", lambda v: v),
         "influx_sediment_concentration": ("C0_percent", lambda v: mul(v, C(100))),
         "channel_flow_velocity": ("u0", lambda v: v), "channel_flow_depth": ("h0", lambda v: v),
         "sea_surface_mean_elevation": ("H_SL", lambda v: v), "sea_surface_elevation_change": ("SLR", lambda v: v)}


def set_run(c, name, v, pre=None, routers=False):
    k = ("setrun", name, v, routers)
    if k in c.cache:
        return c.cache[k]
    cls = c.repo.cls("DeltaModel")
    pv = cls.find(name)
    if not isinstance(pv, PropV) or pv.setter is None:
        return None
    I = c.interp()
    st = St({}, {}, ())
    o = I.new_obj(st, cls, "self")
    if routers:
        i = cls.find("init_sediment_routers")
        if isinstance(i, FuncV):
            I.run(st, i, [o])
    if pre:
        pre(I, st, o)
    n = len(I.events)
    r = I.run(st, pv.setter, [o, v])
    R = Run(c, I, st, o, r, pv.setter, n)
    c.absorb(I)
    c.cache[k] = R
    return R


def p11(c):
    D = defaults(c)
    v = sym("$v", "s")
    plain = [k for k in D if k not in DOM and not k.startswith("save_") and k not in ("resume_checkpoint", "checkpoint_dt")]
    cls = c.repo.cls("DeltaModel")
    for name in list(DOM) + plain:
        if not isinstance(cls.find(name), PropV):
            if name in DOM:
                c.bad("%s: checked on assignment" % name, "", "assigned without any check")
            else:
                c.ok("%s: stored unchanged" % name, "", "plain attribute")
            continue
        R = set_run(c, name, v)
        if R is None:
            c.bad("%s: can be assigned" % name, "", "read-only")
            continue
        dom = DOM[name](v, c.s) if name in DOM else TRUE
        rej = FALSE
        unknown = False
        for x in R.escapes():
            if name in DOM and x.cls == "ValueError":
                rej = or_(rej, and_(*x.st.pc))
                old = R.I.get_field(x.st, R.obj, "_" + name, None)
                if old is not None:
                    c.equal("%s: a rejected value leaves the old one" % name, R.I.term(old, x.st), c.s("_" + name), R.where)
            else:
                c.bad("%s: every value of the domain is accepted" % name, R.where, "%s raised" % x.cls)
        if name in DOM:
            # null is handled separately: ordering facts are about numbers
            f = [] if name == "active_layer_thickness" else []
            nn = not_(eq(v, NONE))
            c.implied("%s: every value outside the domain is rejected" % name, and_(not_(dom), nn), rej, R.where,
                      why="accepted")
            c.implied("%s: every value in the domain is accepted" % name, rej, not_(dom), R.where, why="rejected")
        want = v
        if name == "active_layer_thickness":
            want = sel(eq(v, NONE), div(c.s("_h0"), C(2)), v)
        live = and_(*R.st.pc)
        got = R.prop(name)
        c.equal("%s: an accepted value is stored unchanged" % name, sel(live, got, want), want, R.last_store("_" + name))
        # nothing else is assigned by the plain setters
        extra = sorted({e.name for e in R.events if e.kind == "setattr" and e.name not in ("_" + name, name)})
        if extra:
            c.unk("%s: assigns only itself" % name, R.where, "also assigns %s" % extra) if name not in DOM else None
    for al, (nm, f) in ALIAS.items():
        pv = cls.find(al)
        if not isinstance(pv, PropV) or pv.setter is None:
            c.unk("%s assigns %s" % (al, nm), "", "no such property")
            continue
        R = set_run(c, al, v, routers=True)
        if R is None:
            continue
        live = and_(*[p for p in R.st.pc if v in subterms(p)])
        c.equal("%s assigns %s" % (al, nm), sel(live, R.prop(nm), f(v)), f(v), R.last_store("_" + nm))
        if nm in DOM:
            rej = FALSE
            for x in R.escapes():
                if x.cls == "ValueError":
                    rej = or_(rej, and_(*x.st.pc))
            c.implied("%s: values outside the domain are rejected" % al, not_(DOM[nm](f(v), c.s)), rej, R.where, why="accepted")


# ------------------------------------------------------------------ P23
NB = [(di, dj) for di in (-1, 0, 1) for dj in (-1, 0, 1)]


def two(t):
    """a literal with rows"""
    return t.op in ("arr", "list", "tuple") and all(isinstance(a, T) and a.op in ("arr", "list", "tuple") for a in t.args)


def table(t):
    """nine entries of a literal 3x3 or flat table"""
    t = norm(t)
    if t.op in ("arr", "list", "tuple"):
        out = []
        for a in t.args:
            if isinstance(a, T) and a.op in ("arr", "list", "tuple"):
                r = table(a)
                if r is None:
                    return None
                out += r
            else:
                out.append(a)
        return out
    if t.op in ("add", "mul", "sub", "div"):
        cols = [table(a) if isinstance(a, T) and is_array(a) else a for a in t.args]
        if any(x is None for x in cols):
            return None
        n = max(len(x) for x in cols if isinstance(x, list))
        from ..terms import rebuild
        return [rebuild(t.op, [x[i] if isinstance(x, list) else x for x in cols]) for i in range(n)]
    if t.op in ("flat", "ravel") and isinstance(t.args[0], T):
        return table(t.args[0])
    if t.op in ("app", "aapp") and str(t.args[0]) in ("flatten", "ravel", "m.flatten", "m.ravel", "astype", "flat", "copy"):
        return table(t.args[1])
    if t.op in ("app", "aapp") and str(t.args[0]) in ("T", "transpose", "m.transpose", "swapaxes") and isinstance(t.args[1], T):
        r = table(t.args[1])
        return [r[3 * j + i] for i in range(3) for j in range(3)] if r is not None and len(r) == 9 and two(t.args[1]) else None
    if t.op == "flatten":
        return table(t.args[0])
    return None


def fl(t):
    """numeric value of a closed expression"""
    t = norm(t)
    n = num(t)
    if n is not None:
        return float(n)
    if t.op in ("add", "mul", "min", "max", "pow", "div", "abs"):
        a = [fl(x) for x in t.args]
        if any(x is None for x in a):
            return None
        r = a[0]
        if t.op == "abs":
            return abs(r)
        for x in a[1:]:
            r = {"add": lambda: r + x, "mul": lambda: r * x, "min": lambda: min(r, x), "max": lambda: max(r, x),
                 "pow": lambda: r ** x, "div": lambda: r / x}[t.op]()
        return r
    if t.op in ("app", "pw") and t.args[0] == "sqrt":
        a = fl(t.args[1])
        return None if a is None else a ** .5
    return None


def p23(c):
    R = c.run_method("set_constants")
    if R is None:
        return c.unk("tables", "", "set_constants not found")
    W = c.s("W")
    want = {"iwalk": [float(dj) for di, dj in NB], "jwalk": [float(di) for di, dj in NB],
            "distances": [((di * di + dj * dj) ** .5) or 1.0 for di, dj in NB],
            "ivec": [dj / (((di * di + dj * dj) ** .5) or 1.0) for di, dj in NB],
            "jvec": [di / (((di * di + dj * dj) ** .5) or 1.0) for di, dj in NB]}
    for nm, w in want.items():
        for suf in ("", "_flat"):
            ob = "table %s%s describes the nine neighbours in order" % (nm, suf)
            t = R.field(nm + suf)
            g = table(t)
            if g is None or len(g) != 9:
                c.unk(ob, R.last_store(nm + suf), "table not understood: %s" % show(t)[:100])
                continue
            v = [fl(x) for x in g]
            if any(x is None for x in v):
                c.unk(ob, R.last_store(nm + suf), "entry not numeric")
            elif all(abs(a - b) < 1e-6 for a, b in zip(v, w)):
                c.ok(ob, R.last_store(nm + suf))
            else:
                i = [k for k in range(9) if abs(v[k] - w[k]) >= 1e-6][0]
                c.bad(ob, R.last_store(nm + suf), "entry %d is %.4g, neighbour %s requires %.4g" % (i, v[i], NB[i], w[i]))
    for nm in ("ravel_walk", "ravel_walk_flat"):
        g = table(R.field(nm))
        for k, (di, dj) in enumerate(NB):
            ob = "%s: flat offset of neighbour (%d, %d)" % (nm, di, dj)
            if g is None or len(g) != 9:
                c.unk(ob, R.last_store(nm), "table not understood")
                continue
            c.equal(ob, g[k], add(mul(C(di), W), C(dj)), R.last_store(nm))
    for nm, cen in (("kernel1", -8), ("kernel2", 0)):
        g = table(R.field(nm))
        ob = "%s weights the eight neighbours equally" % nm
        v = None if g is None else [fl(x) for x in g]
        if v is None or len(v) != 9 or any(x is None for x in v):
            c.unk(ob, R.last_store(nm), "table not understood")
        elif v == [1., 1, 1, 1, cen, 1, 1, 1, 1]:
            c.ok(ob, R.last_store(nm))
        else:
            c.bad(ob, R.last_store(nm), "weights %s" % v)
    # flat index <-> (row, column)
    n0, n1, i, j, k = (sym("$" + x, "s") for x in ("n0", "n1", "i", "j", "k"))
    A = c.run_func("shared_tools", "custom_unravel", [k, (n0, n1)])
    if A is None:
        c.unk("flat index to row and column", "", "custom_unravel not found")
    else:
        t = A.term(A.value)
        if t.op != "tuple" or len(t.args) != 2:
            c.unk("flat index to row and column", A.where, show(t)[:80])
        else:
            c.equal("row of a flat index", t.args[0], mk("floordiv", k, n1), A.where)
            c.equal("column of a flat index", t.args[1], mk("mod", k, n1), A.where)
    B = c.run_func("shared_tools", "custom_ravel", [(i, j), (n0, n1)])
    if B is None:
        c.unk("row and column to flat index", "", "custom_ravel not found")
    else:
        c.equal("row and column to flat index", B.term(B.value), add(mul(i, n1), j), B.where)
    for X, nm in ((A, "custom_unravel"), (B, "custom_ravel")):
        if X is None:
            continue
        inside = and_(le(ZERO, k), lt(k, mul(n0, n1)), lt(ZERO, n0), lt(ZERO, n1), le(ZERO, i), lt(i, n0), le(ZERO, j), lt(j, n1))
        for x in X.escapes():
            c.implied("%s accepts every cell of the grid" % nm, and_(*x.st.pc), not_(inside), X.where, why="rejected")
        if not X.escapes():
            c.ok("%s accepts every cell of the grid" % nm, X.where)
    # a step in direction d
    G = c.run_func("shared_tools", "get_steps", [k, sym("$iw", "a"), sym("$jw", "a")])
    if G is not None:
        t = G.term(G.value)
        a, b = idx(sym("$iw", "a"), k), idx(sym("$jw", "a"), k)
        if t.op == "tuple" and len(t.args) == 4:
            d = power(add(mul(a, a), mul(b, b)), C(0.5))
            c.equal("column step of a direction", t.args[1], a, G.where)
            c.equal("row step of a direction", t.args[2], b, G.where)
            c.equal("length of a step", t.args[0], d, G.where)
            c.equal("a step is a move unless it has no length", sel(t.args[3], ONE, ZERO), sel(eq(d, ZERO), ZERO, ONE), G.where)
        else:
            c.unk("steps", G.where, "unexpected result")
    pad(c)


def pad(c):
    """edge padding used to read the neighbourhood of every cell"""
    from ..cells import cell, N
    arr = sym("$a", "a")
    R = c.run_func("shared_tools", "custom_pad", [lambda I, st: I.new_arr(st, arr)])
    if R is None:
        return c.unk("padding", "", "custom_pad not found")
    t = R.term(R.value)
    i, j = sym("$i", "s"), sym("$j", "s")
    n0, n1 = sym("$n0", "s"), sym("$n1", "s")
    sh = (add(n0, C(2)), add(n1, C(2)))
    for nm, ci, ri in (("top", ZERO, ZERO), ("interior", add(i, ONE), i), ("bottom", add(n0, ONE), sub(n0, ONE))):
        for nm2, cj, rj in (("left", ZERO, ZERO), ("interior", add(j, ONE), j), ("right", add(n1, ONE), sub(n1, ONE))):
            got = cell(t, (ci, cj), sh)
            want = cell(arr, (ri, rj))
            m = {}
            for x in subterms(got):
                if x.op == "idx" and x.args[0] is arr and x.args[1].op == "tuple" and any(
                        num(q) is not None and num(q) < 0 for q in x.args[1].args):
                    m[x] = mk("idx", arr, mk("tuple", *[add(n, q) if num(q) is not None and num(q) < 0 else q
                                                        for q, n in zip(x.args[1].args, (n0, n1))]))
            got = subst(got, m)
            facts = [le(ZERO, i), lt(i, n0), le(ZERO, j), lt(j, n1)]
            hyp = and_(le(ONE, n0), le(ONE, n1), *facts)
            c.equal("padding copies the nearest cell (%s, %s)" % (nm, nm2), sel(hyp, got, ZERO), sel(hyp, want, ZERO), R.where)


# ------------------------------------------------------------------ P28
def p28(c):
    t, If = sym("$t", "s"), sym("$If", "s")
    DAY = C(86400)
    YEAR = C(31557600)
    for u, f in (("seconds", ONE), ("days", DAY), ("years", YEAR)):
        R = c.run_func("shared_tools", "scale_model_time", [t, If, C(u)])
        if R is None:
            return c.unk("scaled time", "", "scale_model_time not found")
        live = and_(*R.st.pc)
        want = div(t, mul(If, f))
        dom = and_(lt(ZERO, If), le(If, ONE))
        c.equal("model time in %s" % u, sel(dom, R.term(R.value), ZERO), sel(dom, want, ZERO), R.where)
        rej = or_(*[and_(*x.st.pc) for x in R.escapes() if x.cls == "ValueError"])
        c.implied("intermittency outside (0, 1] is an error (%s)" % u, not_(dom), rej, R.where, why="accepted")
        c.implied("intermittency in (0, 1] is accepted (%s)" % u, rej, not_(dom), R.where, why="rejected")
    R = c.run_func("shared_tools", "scale_model_time", [t])
    c.equal("scaling without options changes nothing", R.term(R.value), t, R.where)
    u = sym("$u", "s")
    R = c.run_func("shared_tools", "scale_model_time", [t, If, u])
    rej = or_(*[and_(*x.st.pc) for x in R.escapes() if x.cls == "ValueError"])
    known = or_(*[eq(u, C(x)) for x in ("seconds", "days", "years")])
    c.implied("an unknown unit is an error", not_(known), rej, R.where, why="accepted")
    R = c.run_func("preprocessor", "scale_relative_sea_level_rise_rate", [t, If])
    if R is not None:
        dom = and_(lt(ZERO, If), le(If, ONE))
        c.equal("sea level rise in mm per year becomes m per model second", sel(dom, R.term(R.value), ZERO),
                sel(dom, div(div(t, C(1000)), mul(If, YEAR)), ZERO), R.where)
        R = c.run_func("preprocessor", "scale_relative_sea_level_rise_rate", [t])
        c.equal("sea level rise without intermittency", R.term(R.value), div(div(t, C(1000)), YEAR), R.where)
    # clock
    for p, w in (("time", "_time"), ("dt", "_dt"), ("time_step", "_dt"), ("time_iter", "_time_iter"),
                 ("save_iter", "_save_iter"), ("save_time_since_data", "_save_time_since_data")):
        pv = c.repo.cls("DeltaModel").find(p)
        if isinstance(pv, PropV):
            c.equal("%s reports the model clock" % p, c.sp(p), c.s(w), "pyDeltaRCM/model.py")
    for p, w in (("sea_surface_elevation", "stage"), ("water_depth", "depth"), ("bed_elevation", "eta"),
                 ("sea_surface_mean_elevation", "_H_SL"), ("sea_surface_elevation_change", "_SLR"),
                 ("bedload_fraction", "_f_bedload"), ("channel_flow_velocity", "_u0"), ("channel_flow_depth", "_h0")):
        pv = c.repo.cls("DeltaModel").find(p)
        if isinstance(pv, PropV):
            c.equal("%s reports the model value" % p, c.sp(p), c.s(w), "pyDeltaRCM/model.py")
    for p, w in (("channel_width", mul(c.s("N0"), c.s("_dx"))), ("influx_sediment_concentration", c.s("_C0_percent"))):
        if isinstance(c.repo.cls("DeltaModel").find(p), PropV):
            c.equal("%s reports the model value" % p, c.sp(p), w, "pyDeltaRCM/model.py")


# ------------------------------------------------------------------ P34
def relations(c, R, names=None, tag="", own=False):
    """documented relations between the parameters and the quantities derived from them, by the derived attribute;
    own: parameters as they stand at the end of R (after an assignment) instead of as given"""
    f = R.field
    s = R.field if own else c.s
    live = and_(*R.st.pc) if own else TRUE
    N0, dx, u0, h0 = f("N0"), s("_dx"), s("_u0"), s("_h0")
    rows = [
        ("Qw0", "inlet discharge is velocity times depth times inlet width", lambda: (f("Qw0"), mul(u0, h0, N0, dx))),
        ("qw0", "inlet unit discharge is velocity times depth", lambda: (f("qw0"), mul(u0, h0))),
        ("Qp_water", "all water parcels together carry the inlet discharge", lambda: (mul(f("Qp_water"), s("_Np_water")), f("Qw0"))),
        ("C0", "concentration is the percentage over 100", lambda: (f("C0"), div(s("_C0_percent"), C(100)))),
        ("Qs0", "sediment supply is discharge times concentration", lambda: (f("Qs0"), mul(f("Qw0"), f("C0")))),
        ("qs0", "unit sediment supply is unit discharge times concentration", lambda: (f("qs0"), mul(f("qw0"), f("C0")))),
        ("Vp_sed", "all sediment parcels together carry the volume of one timestep", lambda: (mul(f("Vp_sed"), s("_Np_sed")), f("dVs"))),
        ("_dt", "volume of one timestep is supply rate times timestep", lambda: (mul(f("_dt"), f("Qs0")), f("dVs"))),
        ("dVs", "volume of one timestep scales with the inlet cell volume", lambda: (f("dVs"), mul(C(0.1), power(N0, C(2)), mul(h0, power(dx, C(2)))))),
        ("V0", "inlet cell volume", lambda: (f("V0"), mul(h0, power(dx, C(2))))),
        ("u_max", "maximum speed is twice the inlet speed", lambda: (f("u_max"), mul(C(2), u0))),
        ("dry_depth", "dry threshold", lambda: (f("dry_depth"), tmin(C(0.1), mul(C(0.1), h0)))),
        ("N0", "inlet width in cells: rounded, at least three, at most a quarter of the domain",
         lambda: (N0, tmax(C(3), tmin(pw("round", div(s("_N0_meters"), dx)), mk("floordiv", s("W"), C(4)))))),
        ("L0", "inlet length in cells: rounded, at least one, at most a quarter of the domain",
         lambda: (f("L0"), tmax(ONE, tmin(pw("round", div(s("_L0_meters"), dx)), mk("floordiv", s("L"), C(4)))))),
        ("_stepmax", "step limit defaults to the domain perimeter",
         lambda: (f("_stepmax"), sel(eq(c.s("_stepmax"), NONE), mul(C(2), add(s("L"), s("W"))), pw("int", c.s("_stepmax"))))),
        ("N_crossdiff", "diffusion passes per timestep", lambda: (f("N_crossdiff"), pw("round", div(f("dVs"), f("V0"))))),
        ("diffusion_multiplier", "diffusion coefficient",
         lambda: (f("diffusion_multiplier"), div(mul(div(f("_dt"), f("N_crossdiff")), s("_alpha"), C(0.5)), power(dx, C(2))))),
        ("gamma", "water surface slope term", lambda: (f("gamma"), div(mul(s("g"), s("_S0"), dx), power(u0, C(2))))),
        ("omega_flow_iter", "under-relaxation of later flow iterations", lambda: (f("omega_flow_iter"), div(C(2), s("_itermax")))),
    ]
    for nm, ob, ab in rows:
        if names is None or nm in names:
            a, b = ab()
            if own:       # a model that exists: its attributes do too
                a, b = (subst(x, {y: TRUE for y in subterms(x) if y.op == "app" and y.args[0] == "hasattr" and len(y.args) == 3}) for x in (a, b))
            c.equal(tag + ob, a if live is TRUE else sel(live, a, b), b, R.last_store(nm))


def inlet_relations(c, names, tag=""):
    R = c.run_method("create_boundary_conditions")
    if R is None:
        return c.unk("supply", "", "create_boundary_conditions not found")
    relations(c, R, names, tag)
    if "gamma" in names:
        gravity(c)


def gravity(c):
    K = c.run_method("set_constants")
    if K is not None and K.last_store("g"):
        c.equal("gravitational acceleration", K.field("g"), C(9.81), K.last_store("g"))


def grid_relations(c, names=None):
    """thresholds and grid dimensions"""
    Q = c.run_method("create_other_variables")
    if Q is None:
        c.unk("derived parameters", "", "create_other_variables not found")
        return
    s = c.s
    dx, u0 = s("_dx"), s("_u0")
    for nm, w in (("theta_sand", mul(s("_coeff_theta_sand"), s("_theta_water"))), ("theta_mud", mul(s("_coeff_theta_mud"), s("_theta_water"))),
                  ("U_dep_mud", mul(s("_coeff_U_dep_mud"), u0)), ("U_ero_sand", mul(s("_coeff_U_ero_sand"), u0)),
                  ("U_ero_mud", mul(s("_coeff_U_ero_mud"), u0)), ("L", pw("round", div(s("_Length"), dx))), ("W", pw("round", div(s("_Width"), dx)))):
        if names is None or nm in names:
            c.equal("%s follows from the parameters" % nm, Q.field(nm), w, Q.last_store(nm))


def p34(c):
    R = c.run_method("create_boundary_conditions")
    if R is None:
        return c.unk("supply", "", "create_boundary_conditions not found")
    s = c.s
    relations(c, R)
    gravity(c)
    grid_relations(c)
    # numbers of parcels and where they start
    for meth, nm, want in (("route_all_sand_parcels", "sand", mul(s("_Np_sed"), s("_f_bedload"))),
                           ("route_all_mud_parcels", "mud", mul(s("_Np_sed"), sub(ONE, s("_f_bedload")))),
                           ("init_water_iteration", "water", None), ("run_water_iteration", "water", None)):
        X = c.run_method(meth, routers=True)
        if X is None:
            c.unk("number of %s parcels" % nm, "", "%s not found" % meth)
            continue
        es = X.enters("get_start_indices")
        if not es:
            if nm != "water":
                c.unk("number of %s parcels" % nm, X.where, "parcel starts not found")
            continue
        e = es[0]
        if len(es) != 1 or len(e.args) < 3:
            c.unk("number of %s parcels" % nm, at(e), "parcel starts not understood")
            continue
        w = pw("int", want) if want is not None else s("_Np_water")
        c.equal("number of %s parcels" % nm, e.args[2], w, at(e))
        c.equal("%s parcels start in the inlet" % nm, e.args[0], s("inlet"), at(e))
        equally(c, "%s parcels are fed in by equal weights" % nm, e.args[1], at(e))
    from .physics import steps, full_volume, all_routed
    for which in ("sand", "mud"):
        S = steps(c, which)
        if S.ok and S.lres is not None:
            full_volume(c, S, which)
            all_routed(c, S, which)
        else:
            c.unk("%s parcels start with the full parcel volume" % which, "", "routing loop not found")
    starts(c)
    pick_rule(c)


def element(R, t, inlet):
    """one element of the array t built from draws"""
    if t.op == "aapp" and t.args[0] in ("array", "asarray", "list"):
        return element(R, t.args[1], inlet)
    if t.op == "aapp" and t.args[0] == "take" and len(t.args) == 3:
        e = element(R, t.args[2], inlet)
        return None if e is None else idx(t.args[1], e)
    if t.op == "idx" and t.args[0] is inlet:
        e = element(R, t.args[1], inlet)
        return None if e is None else idx(inlet, e)
    if t.op == "comp" and t.args[1] is TRUE and len(t.args) == 3:
        return t.args[0]
    if t.op in ("add", "mul"):
        es = [x if isc(x) else element(R, x, inlet) for x in t.args]
        return None if any(x is None for x in es) else mk(t.op, *es)
    if drawn(t) is not None:
        return t
    for L in R.I.loops.values():
        for l, o in L.out.items():
            if o is t:
                n = L.next.get(l)
                if n is not None and n.op == "store" and n.args[0] is L.phi[l]:
                    return n.args[2]
                if n is not None and n.op in ("app", "aapp") and n.args[0] in ("append", "concat") and n.args[1] is L.phi[l]:
                    return n.args[2]
                ap = [e for e in R.events if e.kind == "append" and e.loops and R.I.loops.get(e.loops[-1]) is L]
                if len(ap) == 1 and l[0] == "r":
                    d = ap[0].data
                    d = d[-1] if isinstance(d, tuple) else d
                    return R.term(d) if d is not None else None
    return None


def drawn(x):
    """(weights, offset of the returned position, upper end of the uniform draw) of a cumulative search"""
    off = ZERO
    if x.op == "idx" and x.args[0].op == "aapp" and x.args[0].args[0] == "arange":
        a = x.args[0].args[1:]
        off = a[0] if len(a) > 1 else ZERO
        if len(a) > 2 and num(a[2]) != 1:
            return None
        x = x.args[1]
    if x.op != "app" or x.args[0] != "searchsorted" or len(x.args) != 3:
        return None
    cs, u = x.args[1:]
    if not (cs.op == "aapp" and cs.args[0] == "cumsum" and len(cs.args) == 2):
        return None
    if not (u.op == "ext" and "uniform" in str(u.args[1]) and len(u.args) == 4 and num(u.args[2]) == 0):
        return None
    return cs.args[1], off, u.args[3]


def pick_rule(c):
    """a draw by weights returns the position at which the running total of the weights reaches a uniform draw"""
    w = sym("$w", "a")
    R = c.run_func("shared_tools", "random_pick", [lambda I, st: I.new_arr(st, w)])
    if R is None:
        return c.unk("a choice by weights", "", "random_pick not found")
    v = R.term(R.value)
    ps = [x for x in subterms(v) if drawn(x) is not None]
    ps = [x for x in ps if not any(x is not y and x in subterms(y) for y in ps)]
    ob = "a choice by weights is the position at which their running total reaches a uniform draw"
    if len(ps) != 1:
        return c.unk(ob, R.where, show(v)[:100])
    k = sym("$k", "s")
    W, off, top = drawn(ps[0])
    c.equal(ob, subst(v, {ps[0]: add(k, off)}), k, R.where)
    total = idx(mk("aapp", "cumsum", W), C(-1))
    c.equal(ob + ": range of the draw", subst(top, {mk("app", "sum", W): total}), total, R.where)
    f = [norm(sub(W, x)) for x in (w, div(w, mk("app", "sum", w)))]
    if ZERO in f:
        c.ok(ob + ": weights", R.where)
    else:
        c.equal(ob + ": weights", W, w, R.where)


def starts(c):
    """the chosen starts are elements of the inlet, exactly as many as asked for"""
    n = sym("$n", "s")
    inlet, w = sym("$inlet", "a"), sym("$w", "a")
    R = c.run_func("shared_tools", "get_start_indices", [lambda I, st: I.new_arr(st, inlet), lambda I, st: I.new_arr(st, w), n])
    if R is None:
        return c.unk("starts", "", "get_start_indices not found")
    t = R.term(R.value)
    ob = "every parcel start is an inlet cell, chosen by the weights"
    v = element(R, t, inlet)
    k = sym("$k", "s")
    ps = [x for x in subterms(v) if drawn(x) is not None] if v is not None else []
    ps = [x for x in ps if not any(x is not y and x in subterms(y) for y in ps)]
    if len(ps) != 1:
        c.unk(ob, R.where, "value %s" % show(t)[:100])
    else:
        c.equal(ob, subst(v, {ps[0]: k}), idx(inlet, k), R.where)
        pw_, off, top = drawn(ps[0])
        c.equal(ob + ": position", off, ZERO, R.where)
        c.equal(ob + ": range of the draw", subst(top, {pw_: w}), idx(mk("aapp", "cumsum", w), C(-1)), R.where)
        # weights up to a common positive factor
        f = [sub(pw_, x) for x in (w, div(w, mk("app", "sum", w)), div(w, mk("app", "max", w)))]
        if any(norm(x) is ZERO for x in f):
            c.ok(ob + ": weights", R.where)
        elif not opaque(pw_, div(w, mk("app", "sum", w))) and inlet not in subterms(pw_):
            c.equal(ob + ": weights", pw_, div(w, mk("app", "sum", w)), R.where)
        else:
            c.unk(ob + ": weights", R.where, show(pw_)[:80])
    draws = [e for e in R.events if e.kind == "rng"]
    its = [R.I.loops[l].iter for e in draws for l in e.loops if l in R.I.loops and isinstance(R.I.loops[l].iter, T)]
    ok = [x for x in its if x is app("range", ZERO, n, ONE) or (x.op == "aapp" and x.args[0] == "arange" and x.args[-1] is n)]
    if ok:
        c.ok("one start is drawn per parcel", R.where)
    elif not its:
        c.unk("one start is drawn per parcel", R.where, "loop not found")
    elif any(n in subterms(x) for x in its):
        c.bad("one start is drawn per parcel", R.where, "drawn over %s" % show(its[0])[:80])
    else:
        c.unk("one start is drawn per parcel", R.where, "drawn over %s" % show(its[0])[:80])
    X = c.run_func("shared_tools", "get_inlet_weights", [lambda I, st: I.new_arr(st, inlet)])
    if X is not None:
        equally(c, "every inlet cell is equally likely", X.term(X.value), X.where)


def equally(c, ob, t, w):
    if t.op == "aapp" and "ones" in str(t.args[0]):
        t = ONE
    if num(t) is not None:
        (c.ok if num(t) > 0 else c.bad)(ob, w, "weight %s" % show(t))
    elif not any(x.op in ("ext", "obj", "opaque") for x in subterms(t)) and sym("self.inlet", "a") in subterms(t):
        c.equal(ob, t, ONE, w)
    else:
        c.unk(ob, w, show(t)[:80])


def c_field(R, n):
    return R.field(n)


# ------------------------------------------------------------------ P29
DERIVED = ("L0", "N0", "u_max", "C0", "dry_depth", "gamma", "V0", "Qw0", "qw0", "Qp_water", "qs0", "dVs", "Qs0", "Vp_sed",
           "_dt", "omega_flow_iter", "N_crossdiff", "diffusion_multiplier", "_lambda")
MIDRUN = {"channel_flow_velocity": ("u0", True), "channel_width": ("N0_meters", True), "channel_flow_depth": ("h0", True),
          "influx_sediment_concentration": ("C0_percent", True), "bedload_fraction": ("f_bedload", False), "time_step": (None, False)}


def router_fields(R):
    out = {}
    for r in ("_mr", "_sr"):
        v = R.raw(r)
        if isinstance(v, Ref) and v.kind == "obj":
            rec = R.I.rec(R.st, v)
            for k, x in rec.fields.items():
                try:
                    out[r + "." + k] = R.I.term(x, R.st)
                except Exception:
                    pass
    return out


def p29(c):
    v = sym("$v", "s")
    for name, (par, bc) in MIDRUN.items():
        pv = c.repo.cls("DeltaModel").find(name)
        if not isinstance(pv, PropV) or pv.setter is None:
            c.unk("assigning %s" % name, "", "no such property")
            continue
        R = set_run(c, name, v, routers=True)
        new = ALIAS[name][1](v) if name in ALIAS else v

        def pre(I, st, o):
            if par is not None:
                seti(I, st, o, "_" + par, new)
            else:
                seti(I, st, o, "_dt", v)
            if bc:
                f = I.repo.cls("DeltaModel").find("create_boundary_conditions")
                if isinstance(f, FuncV):
                    I.run(st, f, [o])
        W = c.run_method("init_sediment_routers", pre=pre, key=("p29", name))
        if W is None:
            return c.unk("assigning %s" % name, "", "init_sediment_routers not found")
        live = and_(*[p for p in R.st.pc])
        if bc:
            for d in DERIVED:
                if W.field(d) is c.s(d):
                    continue
                c.equal("assigning %s refreshes %s" % (name, d), sel(live, R.field(d), W.field(d)), W.field(d), R.last_store(d))
            relations(c, R, [d for d in DERIVED], "after assigning %s: " % name, own=True)
        a, b = router_fields(R), router_fields(W)
        if not b:
            c.unk("assigning %s refreshes the routers" % name, R.where, "routers not understood")
        for k, w in b.items():
            if k not in a:
                c.bad("assigning %s refreshes %s" % (name, k), R.where, "not set")
            else:
                c.equal("assigning %s refreshes %s" % (name, k), sel(live, a[k], w), w, R.where)
    R = set_run(c, "time_step", v, routers=True)
    if R is not None:
        c.equal("assigning time_step changes the timestep", R.field("_dt"), v, R.last_store("_dt"))
        on = truth(c.s("_toggle_subsidence"))
        want = sel(on, mul(div(c.s("sigma"), c.s("_dt")), v), c.s("sigma"))
        c.equal("assigning time_step rescales subsidence per step", R.field("sigma"), want, R.last_store("sigma"))
    # the value is used by the next update: the update reads the model attribute or the refreshed router only
    for name, fld in (("sea_surface_mean_elevation", "_H_SL"), ("sea_surface_elevation_change", "_SLR")):
        R = set_run(c, name, v)
        if R is not None:
            c.equal("assigning %s takes effect" % name, R.field(fld), v, R.last_store(fld))


# ------------------------------------------------------------------ P35
def p35(c):
    from ..cells import cell, N
    R = c.run_method("create_domain")
    if R is None:
        return c.unk("domain", "", "create_domain not found")
    i, j = sym("$i", "s"), sym("$j", "s")
    L, W, L0, N0, CTR = (c.s(x) for x in ("L", "W", "L0", "N0", "CTR"))
    dx, S0, h0, qw0 = c.s("_dx"), c.s("_S0"), c.s("_h0"), c.s("qw0")
    sh = {N[0]: L, N[1]: W}
    hyp = and_(le(ZERO, i), lt(i, L), le(ZERO, j), lt(j, W), lt(ZERO, L0), lt(L0, L), lt(ZERO, N0))

    def at_(nm):
        return subst(cell(R.field(nm), (i, j)), sh)

    def eqc(ob, nm, want, extra=TRUE):
        h = and_(hyp, extra)
        c.equal(ob, sel(h, at_(nm), ZERO), sel(h, want, ZERO), R.last_store(nm))
    first = add(sub(CTR, pw("round", div(N0, C(2)))), ONE)
    got = at_("cell_type")
    chan = and_(lt(i, L0), le(first, j), lt(j, add(first, N0)))
    land = and_(lt(i, L0), not_(chan))
    dist = power(add(power(sub(i, C(3)), C(2)), power(sub(j, CTR), C(2))), C(0.5))
    edge = or_(eq(i, sub(L, ONE)), eq(j, ZERO), eq(j, sub(W, ONE)), le(tmin(sub(L, C(5)), sub(div(W, C(2)), C(5))), dist))
    eqc("cell types: channel, land, edge, ocean", "cell_type", sel(chan, ONE, sel(land, C(-2), sel(edge, C(-1), ZERO))))
    eqc("initial depth: inlet depth in the channel, basin depth in the basin, none on land", "depth",
        sel(chan, h0, sel(land, ZERO, sel(truth(c.s("_hb")), c.s("_hb"), h0))))
    eqc("initial surface: sloping land and channel, level sea", "stage",
        sel(lt(i, L0), mul(tmax(ZERO, sub(sub(L0, i), ONE)), dx, S0), ZERO))
    eqc("initial bed is surface minus depth", "eta", sub(at_("stage"), at_("depth")))
    eqc("initial discharge along the channel", "qx", sel(chan, qw0, sel(land, ZERO, div(qw0, C(5)))))
    eqc("no initial cross discharge", "qy", ZERO)
    eqc("initial discharge magnitude", "qw", power(add(power(at_("qx"), C(2)), power(at_("qy"), C(2))), C(0.5)))
    wet = lt(ZERO, at_("depth"))
    eqc("initial velocity is discharge over depth", "ux", sel(wet, div(at_("qx"), at_("depth")), ZERO))
    eqc("initial cross velocity is discharge over depth", "uy", sel(wet, div(at_("qy"), at_("depth")), ZERO))
    eqc("initial speed is discharge over depth", "uw", sel(wet, div(at_("qw"), at_("depth")), ZERO))
    eqc("initial surface composition is the boundary fraction", "sand_frac", c.s("_sand_frac_bc"))
    eqc("initial active layer is the boundary fraction", "active_layer", c.s("_sand_frac_bc"))
    for nm in ("qs", "Vp_dep_sand", "Vp_dep_mud", "sfc_visit", "sfc_sum", "qxn", "qyn", "qwn"):
        eqc("%s starts at zero" % nm, nm, ZERO)
    for nm in ("mod_water_weight", "mod_sed_weight", "mod_erosion"):
        eqc("%s starts neutral" % nm, nm, ONE)
    # coordinates
    for nm, want in (("x", j), ("y", i), ("X", mul(j, dx)), ("Y", mul(i, dx))):
        c.equal("coordinate %s" % nm, cell(R.field(nm), (i, j)), want, R.last_store(nm))
    c.equal("coordinate xc", cell(R.field("xc"), (i,)), mul(i, dx), R.last_store("xc"))
    c.equal("coordinate yc", cell(R.field("yc"), (j,)), mul(j, dx), R.last_store("yc"))
    c.equal("basin depth defaults to the inlet depth", R.field("_hb"), sel(truth(c.s("_hb")), c.s("_hb"), h0), R.last_store("_hb"))
    # inlet columns are the columns that hold a channel cell
    t = R.field("inlet")
    ct = R.field("cell_type")
    ok = t.op == "aapp" and t.args[0] == "unique" and t.args[1].op == "idx" and t.args[1].args[0].op == "where1" and \
        num(t.args[1].args[1]) == 1
    part = t.op == "idx" and t.args[0].op == "aapp" and t.args[0].args[0] == "unique" and t.args[1].op == "slice" and \
        t.args[1].args[0] in (NONE, ZERO) and t.args[1].args[1] is not NONE and \
        norm(t.args[1].args[1]) is norm(sub(c.s("N0"), ONE))
    if part:
        c.bad("inlet columns are the channel columns", R.last_store("inlet"), "the last column of the channel is left out")
    elif not ok:
        c.unk("inlet columns are the channel columns", R.last_store("inlet"), show(t)[:100])
    else:
        cond = t.args[1].args[0].args[0]
        c.equal("inlet columns are the channel columns", sel(hyp, sel(subst(cell(cond, (i, j)), sh), ONE, ZERO), ZERO),
                sel(hyp, sel(chan, ONE, ZERO), ZERO), R.last_store("inlet"))
    inlet_relations(c, ("L0", "N0", "qw0"))
    grid_relations(c, ("L", "W"))
    # centre column
    Q = c.run_method("create_other_variables")
    if Q is not None:
        half = pw("floor", div(Q.field("W"), C(2)))
        c.equal("inlet is centred", Q.field("CTR"), sel(le(sub(half, ONE), ONE), half, sub(half, ONE)), Q.last_store("CTR"))


# ------------------------------------------------------------------ P37
NUMBERS = r"^(?:[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|[-+]?[0-9]+[eE][-+]?[0-9]+|\.[0-9]+(?:[eE][-+]?[0-9]+)?)$"
# what the YAML library reads as a float on its own (YAML 1.1, as implemented by PyYAML)
LIBRARY = (r"^(?:[-+]?(?:[0-9][0-9_]*)\.[0-9_]*(?:[eE][-+][0-9]+)?|\.[0-9][0-9_]*(?:[eE][-+][0-9]+)?|"
           r"[-+]?[0-9][0-9_]*(?::[0-5]?[0-9])+\.[0-9_]*|[-+]?\.(?:inf|Inf|INF)|\.(?:nan|NaN|NAN))$")
# anything that denotes a number in YAML, separators and base sixty included
NUMERIC = (r"^(?:[-+]?[0-9][0-9_]*(?:\.[0-9_]*)?(?:[eE][-+]?[0-9]+)?|[-+]?\.[0-9_]+(?:[eE][-+]?[0-9]+)?|"
           r"[-+]?[0-9][0-9_]*(?::[0-5]?[0-9])+(?:\.[0-9_]*)?|[-+]?\.(?:inf|Inf|INF)|[-+]?\.(?:nan|NaN|NAN))$")
FLOAT_TAG = "tag:yaml.org,2002:float"


def p37(c):
    from ..relang import Lang, missing, NotRegular
    A, Y, G = Lang(NUMBERS), Lang(LIBRARY), Lang(NUMERIC)
    seen = set()
    for what, cls, meth, args in (("model input file", "DeltaModel", "import_files", ()),
                                  ("preprocessor input file", "BasePreprocessor", "_open_yaml", (sym("$file", "s"),))):
        R = c.run_method(meth, args=args, cls=cls)
        if R is None:
            c.unk("%s: numbers are read as numbers" % what, "", "%s not found" % meth)
            continue
        loads = [e for e in R.events if e.kind == "call" and e.name in ("yaml.load", "yaml.safe_load", "yaml.full_load", "yaml.unsafe_load")]
        if not loads:
            c.unk("%s: numbers are read as numbers" % what, R.where, "reading of the file not found")
        for e in loads:
            seen.add(at(e).split(" ")[0])
            ob = "%s, read at %s: every decimal and scientific number is a number" % (what, e.where.split("/")[-1])
            ld = (e.kwargs or {}).get("Loader")
            if ld is None and e.name == "yaml.load" and len(e.args or []) > 1:
                ld = e.args[1]
            ln = {"yaml.safe_load": "yaml.SafeLoader", "yaml.full_load": "yaml.FullLoader", "yaml.unsafe_load": "yaml.UnsafeLoader"}.get(e.name)
            ln = ln or (show(R.term(ld)) if ld is not None else "")
            m = re.search(r"yaml\.(?:loader\.)?(\w*Loader)\b", ln)
            if not m:
                c.unk(ob, at(e), "loader %s not recognised" % ln[:60])
                continue
            ln = m.group(1)
            regs = [x for x in R.events if x.kind == "call" and x.name.endswith("add_implicit_resolver") and x.seq < e.seq and
                    all(p in R.guards(e) for p in R.guards(x))]
            other = [x for x in regs if not ("." + x.name).endswith("." + ln + ".add_implicit_resolver")]
            mine = [x for x in regs if x not in other]
            known = [(Y, "-+0123456789.")]
            und = None
            for x in mine:
                a = [R.term(y) for y in x.args or []]
                for k in ("tag", "regexp", "first")[len(a):]:
                    a.append(R.term((x.kwargs or {}).get(k, NONE)))
                if not isc(a[0]) or a[0] is NONE:
                    und = "tag"
                    continue
                rx = a[1]
                if not (rx.op == "app" and rx.args[0] == "re.compile" and isc(rx.args[1])):
                    und = "pattern"
                    continue
                fl = 0
                fs = [f.args[1] if f.op == "kv" else f for f in rx.args[2:]]
                while fs:
                    f = fs.pop()
                    if isc(f) and cval(f) == 0:
                        continue
                    if f.op in ("or", "app", "pw", "bitor", "add", "aapp", "papp") and len(f.args) > 1 and re.search(r"re\.[A-Z]", show(f)):
                        fs += [y for y in f.args if not isinstance(y, str)]
                        continue
                    nm = (str(f.args[0]) if f.op == "fn" else show(f)).split(".")[-1]
                    if nm in ("X", "VERBOSE"):
                        fl |= re.X
                    elif nm not in ("A", "ASCII", "U", "UNICODE"):
                        und = "flags %s" % nm
                try:
                    L = Lang(cval(rx.args[1]), fl)
                except (NotRegular, re.error) as ex:
                    und = "pattern: %s" % ex
                    continue
                ch = a[2] if len(a) > 2 else NONE
                if ch is NONE:
                    chars = None
                elif isc(ch) and isinstance(cval(ch), str):
                    chars = cval(ch)
                elif ch.op in ("list", "tuple") and all(isc(y) for y in ch.args):
                    chars = "".join(str(cval(y)) for y in ch.args)
                else:
                    und = "first characters"
                    continue
                if cval(a[0]) == FLOAT_TAG:
                    known.append((L, chars))
                    try:
                        w = missing(L, [G])
                    except NotRegular as ex:
                        w, und = None, str(ex)
                    o2 = "%s, read at %s: what is read as a number is one" % (what, e.where.split("/")[-1])
                    if w is not None and (chars is None or not w or w[0] in chars):
                        c.bad(o2, at(x), "%r is taken for a number" % w)
                    elif not und:
                        c.ok(o2, at(x))
            bad = None
            for ch in "-+0123456789.":
                try:
                    w = missing(A, [l for l, cs in known if cs is None or ch in cs], first=ch)
                except NotRegular as ex:
                    und, w = str(ex), None
                if w is not None:
                    bad = w
                    break
            if bad is None and not und:
                c.ok(ob, at(e), "automata inclusion over all strings")
            elif bad is not None and not und and not [x for x in other if "%s" % x.name == "yaml.add_implicit_resolver"]:
                c.bad(ob, at(mine[0]) if mine else at(e), "%r is read as text" % bad)
            else:
                c.unk(ob, at(e), "resolver not understood: %s" % und)
    # job files hold the printed form of the values, which the loader then reads as the same numbers
    from .jobs import expand, check_files, jobs_of, S as S_
    J = expand(c, {"out_dir": S_("$out"), "nothing": None, "set": [{"a": S_("a0"), "b": S_("b0")}, {"a": S_("a1"), "b": S_("b1")}]}, "written")
    if J is not None:
        jobs, _ = jobs_of(J)
        if jobs is None:
            c.unk("job files", J.where, "jobs not resolved")
        else:
            check_files(c, J, jobs, "job files: ")
    # no other way of reading files
    for m in c.repo.mods.values():
        for nd in ast.walk(m.tree):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and isinstance(nd.func.value, ast.Name) and \
                    nd.func.value.id == "yaml" and nd.func.attr in ("load", "safe_load", "full_load", "unsafe_load", "load_all"):
                w = "%s:%d" % (m.path, nd.lineno)
                if w not in seen:
                    c.unk("reading at %s" % w, w, "a file is read outside the analysed readers")


RULES = {
    "P37": {"fns": [p37], "min": 4, "level": "other",
            "explain": "The resolver registered with the YAML loader before each read is a constant regular expression of the source; language "
                       "inclusion (every number spelling is matched, nothing else is) is decided by automata over all strings."},
    "P10": {"fns": [p10], "min": 200, "level": "other",
            "explain": "Abstract interpretation of the configuration resolution with every parameter of default.yml possibly present or absent in "
                       "the keyword arguments and the input file."},
    "P11": {"fns": [p11], "min": 60, "level": "other",
            "explain": "Each setter is summarised on an arbitrary number: its rejecting condition is compared with the complement of the domain."},
    "P23": {"fns": [p23], "min": 20, "level": "other",
            "explain": "The neighbour tables are literal data read from the source and compared with the nine neighbours; index conversions are "
                       "compared as value-flow terms for every grid width."},
    "P28": {"fns": [p28], "min": 10, "level": "other",
            "explain": "Summaries of the time conversions on arbitrary times and intermittencies."},
    "P29": {"fns": [p29], "min": 60, "level": "other",
            "explain": "The state after each mid-run setter is compared, attribute by attribute, with the state obtained by rebuilding boundary "
                       "conditions and routers from the new value."},
    "P34": {"fns": [p34], "min": 20, "level": "other",
            "explain": "The relations are decided as identities between the value-flow terms the boundary-condition setup computes."},
    "P35": {"fns": [p35], "min": 20, "level": "other",
            "explain": "The value of every initial grid at an arbitrary cell is compared with the documented layout, for all domain sizes."},
}
