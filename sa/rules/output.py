"""Rules about the output file: records, registration, layout, protection of existing files."""
from ..core import *
from ..interp import Frame, ViewV

COORDS = mk("tuple", C("$T"), C("$X"), C("$Y"))


def props_of(c):
    """save switches: properties that edit a registration list"""
    out = []
    cls = c.repo.cls("DeltaModel")
    seen = set()
    for k in cls.mro():
        for n, v in getattr(k, "ns", {}).items():
            if isinstance(v, PropV) and n.startswith("save_") and n.rsplit("_", 1)[-1] in ("grids", "figs", "components"):
                if n not in seen:
                    seen.add(n)
                    out.append(n)
    return out


def seti(I, st, o, name, v):
    fr = Frame(I.repo.cls("DeltaModel").find("__init__"), st)
    I.stack.append(fr.fv)
    try:
        I.setattr(o, name, v, fr, fr.fv.node)
    finally:
        I.stack.pop()


def lists(I, st, o):
    seti(I, st, o, "_netcdf_coords", COORDS)
    meta = I.new_dict(st, {})
    seti(I, st, o, "_save_var_list", I.new_dict(st, {"meta": (TRUE, meta)}))
    seti(I, st, o, "_save_fig_list", I.new_dict(st, {}))


def full_lists(c, on=None):
    def pre(I, st, o):
        lists(I, st, o)
        for p in props_of(c) if on is None else on:
            seti(I, st, o, p, TRUE)
    return pre



GRIDS = {"save_eta_grids": {"eta": ("eta", "meters")},
         "save_stage_grids": {"stage": ("stage", "meters")},
         "save_depth_grids": {"depth": ("depth", "meters")},
         "save_discharge_grids": {"discharge": ("qw", "cubic meters per second")},
         "save_velocity_grids": {"velocity": ("uw", "meters per second")},
         "save_sedflux_grids": {"sedflux": ("qs", "cubic meters per second")},
         "save_sandfrac_grids": {"sandfrac": ("sand_frac", "fraction")},
         "save_discharge_components": {"discharge_x": ("qx", "cubic meters per second"),
                                       "discharge_y": ("qy", "cubic meters per second")},
         "save_velocity_components": {"velocity_x": ("ux", "meters per second"),
                                      "velocity_y": ("uy", "meters per second")}}
FIGS = {"save_eta_figs": {"eta": "eta"}, "save_stage_figs": {"stage": "stage"}, "save_depth_figs": {"depth": "depth"},
        "save_discharge_figs": {"discharge": "qw"}, "save_velocity_figs": {"velocity": "uw"},
        "save_sedflux_figs": {"sedflux": "qs"}, "save_sandfrac_figs": {"sandfrac": "sand_frac"}}
# time-varying metadata and the public attribute each is read from
META_T = ("H_SL", "f_bedload", "C0_percent", "u0")
META_S = {"L0": 0, "N0": 0, "CTR": 0, "dx": 0, "h0": 0, "hb": 0, "cell_type": 2}
META_SUB = {"start_subsidence": 0, "sigma": 2}


# ------------------------------------------------------------------ P04
def nc_name(t):
    """variable name of a handle into the open output file, or None"""
    if t.op == "idx" and isc(t.args[1]) and isinstance(cval(t.args[1]), str):
        b, n = t.args[0], cval(t.args[1])
        if b.op == "attr" and b.args[1] == "variables":
            b = b.args[0]
        if b.op == "attr" and b.args[1] == "groups":
            return n if is_nc(b.args[0]) else None
        if is_nc(b):
            return n
        g = nc_name(b)
        if g is not None:
            return g + "/" + n
    return None


def is_nc(t):
    return (t.op == "sym" and t.args[0] == "self.output_netcdf")


def rec_index(t):
    if t.op == "tuple" and t.args and all(x.op == "slice" or (isc(x) and cval(x) is Ellipsis) for x in t.args[1:]):
        return t.args[0]
    return t


def p04(c):
    def pre(I, st, o):
        full_lists(c, [p for p in props_of(c) if not p.endswith("figs")])(I, st, o)
        iml = I.repo.cls("DeltaModel").find("init_metadata_list")
        if isinstance(iml, FuncV):
            I.run(st, iml, [o])
        v = I.get_field(st, o, "_save_var_list", None)
        r = st.heap[v.id]
        e = dict(r.entries)
        e["$custom"] = (TRUE, I.new_list(st, (C("custom_attr"), C("1"), C("f4"), COORDS)))
        st.heap[v.id] = DictRec(e, r.base)
        m = e["meta"][1]
        r = st.heap[m.id]
        e = dict(r.entries)
        e["$cmeta"] = (TRUE, I.new_list(st, (NONE, C("1"), C("f4"), C("$T"))))
        st.heap[m.id] = DictRec(e, r.base)
    R = c.run_method("output_data", pre=pre, key="p04")
    if R is None:
        return c.unk("records", "", "output_data not found")
    t0, dtv = c.sp("save_time_since_data"), c.sp("save_dt")
    due = le(dtv, t0)
    si = c.sp("save_iter")
    any_ = truth(c.s("_save_any_grids"))
    met = truth(c.s("_save_metadata"))
    want = {"time": (c.sp("time"), or_(any_, met))}
    for p, d in GRIDS.items():
        for n, (a, u) in d.items():
            want[n] = (c.s(a), any_)
    want["$custom"] = (c.s("custom_attr"), any_)
    for n in META_T:
        want["meta/" + n] = (c.sp(n), met)
    want["meta/$cmeta"] = (c.s("$cmeta"), met)
    sites, odd = {}, []
    for e in R.events:
        if e.kind != "extstore":
            continue
        t = R.term(e.data[0])
        n = nc_name(t)
        if n is None:
            odd.append(e)
        else:
            sites.setdefault(n, []).append(e)
    last = 0
    for n, (val, cond) in want.items():
        ob = "record: %s is written" % n
        es = sites.pop(n, [])
        if not es:
            if odd:
                c.unk(ob, at(odd[0]), "output written through a handle the analysis cannot name")
            else:
                c.bad(ob, R.where, "no write of %r when a record is saved" % n)
            continue
        last = max(last, max(e.seq for e in es))
        try:
            miss = implies(and_(due, cond), or_(*[and_(*R.guards(e)) for e in es]))
        except (Undecided, RecursionError):
            miss = ()
        if miss is not None:
            c.unk(ob, at(es[0]), "not shown to happen for every record") if miss == () or odd else \
                c.bad(ob, at(es[0]), "skipped" + case_text(miss[0]))
        else:
            c.ok(ob, at(es[0]))
        for e in es:
            sw = swallowed(e)
            if sw:
                (c.bad if sw[1] else c.unk)("record: a failed write of %s is not ignored" % n, at(e), "the error is caught and dropped in %s" % sw[0])
            c.equal("record: index of %s" % n, rec_index(R.term(e.data[1])), si, at(e))
            c.equal("record: value of %s" % n, R.term(e.data[2]), val, at(e))
    for n, es in sites.items():
        c.unk("record: write to %s" % n, at(es[0]), "not a registered variable")
    sy = [e for e in R.events if e.kind == "call" and e.name == ".sync" and e.data is not None and
          any(is_nc(R.term(d)) for d in (e.data if isinstance(e.data, tuple) else (e.data,)))]
    good = [e for e in sy if e.seq > last]
    if good:
        c.implied("record: file synced after every record", and_(due, or_(any_, met)),
                  or_(*[and_(*R.guards(e)) for e in good]), at(good[0]), why="record saved without sync")
    else:
        c.bad("record: file synced after every record", at(sy[0]) if sy else R.where, "no sync after the last write")
    if not R.st.dead:
        c.equal("record index advances by one per record and not otherwise", R.prop("save_iter"),
                sel(due, add(si, ONE), si), R.last_store("_save_iter"))
    U = c.run_method("update", routers=True, key="update")
    od = U.enters("output_data")
    w = [e for e in U.events if e.kind == "setattr" and e.name == "_save_iter"]
    lo = od[0].seq if od else 0
    bad = [e for e in w if not any(f.name == "output_data" for f in e.stack if hasattr(f, "name"))]
    if bad and od:
        c.unk("record index changes only when a record is saved", at(bad[0]), "assigned outside output_data")
    else:
        c.ok("record index changes only when a record is saved", U.where)


# ------------------------------------------------------------------ P12
def p12(c):
    cls = c.repo.cls("DeltaModel")
    for sw, regs in list(GRIDS.items()) + list(FIGS.items()):
        fig = sw.endswith("figs")
        pv = cls.find(sw)
        if not isinstance(pv, PropV) or pv.setter is None:
            c.unk("%s exists" % sw, "", "no such property")
            continue
        for val in (TRUE, FALSE):
            I = c.interp()
            st = St({}, {}, ())
            o = I.new_obj(st, cls, "self")
            seti(I, st, o, "_netcdf_coords", COORDS)
            bases = {}
            for ln in ("_save_var_list", "_save_fig_list"):
                inner = {}
                if ln == "_save_var_list":
                    inner["meta"] = (TRUE, I.new_dict(st, {}, sym("$meta", "o")))
                d = I.new_dict(st, inner, c.s(ln))
                bases[ln] = d
                seti(I, st, o, ln, d)
            seti(I, st, o, sw, val)
            R = Run(c, I, st, o, None, pv.setter, 0)
            c.absorb(I)
            w = R.where
            tag = "%s = %s" % (sw, cval(val))
            for ln in bases:
                cur = R.raw(ln)
                if not (isinstance(cur, Ref) and cur.kind == "dict"):
                    c.unk("%s: %s" % (tag, ln), w, "registration list is not tracked")
                    continue
                rec = I.rec(st, cur)
                if rec.base is not c.s(ln):
                    lost = rec.base is None or rec.base.op == "sel" and any(x is NONE for x in rec.base.args[1:])
                    (c.bad if lost else c.unk)("%s: %s" % (tag, ln), w, "registration list cleared" if lost else "registration list rebuilt")
                    continue
                own = regs if (ln == "_save_fig_list") == fig else {}
                if ln == "_save_var_list":
                    pr, mv = rec.entries.get("meta", (FALSE, None))
                    m = I.rec(st, mv) if isinstance(mv, Ref) and mv.kind == "dict" else None
                    if m is not None and pr is TRUE and m.base is sym("$meta", "o") and not m.entries:
                        c.ok("%s leaves the metadata variables alone" % tag, w)
                    elif m is None:
                        c.unk("%s leaves the metadata variables alone" % tag, w, "replaced")
                    else:
                        c.bad("%s leaves the metadata variables alone" % tag, w, "metadata registration changed")
                for k in [k for k in rec.entries if k != "meta"] + [k for k in own if k not in rec.entries]:
                    pr, v = I.dict_lookup(cur, C(k) if isinstance(k, str) else k, st)
                    pr0 = app("in", C(k), c.s(ln)) if isinstance(k, str) else None
                    if k not in own:
                        if pr0 is not None:
                            c.equal("%s leaves %s[%r] alone" % (tag, ln, k), sel(pr, ONE, ZERO), sel(pr0, ONE, ZERO), w)
                        continue
                    c.equal("%s: %s[%r] registered" % (tag, ln, k), sel(pr, ONE, ZERO), ONE if val is TRUE else ZERO, w)
                    if val is TRUE:
                        t = subst(R.term(v), {pr0: FALSE})
                        exp = mk("list", C(own[k])) if fig else \
                            mk("list", C(own[k][0]), C(own[k][1]), C("f4"), COORDS)
                        t = norm(t)
                        if t.op in ("list", "tuple"):
                            t = mk("list", *t.args)
                        c.equal("%s: %s[%r] names its attribute, units and coordinates" % (tag, ln, k), t, exp, w)
            c.equal("%s is readable" % tag, truthy(R.prop(sw)), truthy(val), w)
    I = c.run_method("create_other_variables", key="cov")
    if I is not None:
        flags = [truth(c.sp(s)) for s in GRIDS]
        c.equal("grid saving is on exactly if a grid switch is on", truthy(I.field("_save_any_grids")),
                truthy_or(flags), I.last_store("_save_any_grids"))


def truthy(t):
    return sel(truth(t), ONE, ZERO)


def truthy_or(fl):
    return sel(or_(*fl), ONE, ZERO)


# ------------------------------------------------------------------ P13
def dims_of(t):
    if t.op in ("tuple", "list"):
        return tuple(cval(x) if isc(x) else None for x in t.args)
    if isc(t) and isinstance(cval(t), str):
        return (cval(t),)
    return None


def arg(e, i, *names):
    a = list(e.args or [])
    if i < len(a):
        return a[i]
    for n in names:
        if e.kwargs and n in e.kwargs:
            return e.kwargs[n]
    return None


def branches(t):
    if t.op == "sel":
        return branches(t.args[1]) + branches(t.args[2])
    return [t]


def p13_layout(c, legacy):
    coords = ("total_time", "length", "width") if legacy else ("time", "x", "y")
    CT = mk("tuple", *[C(x) for x in coords])

    def pre(I, st, o):
        seti(I, st, o, "_legacy_netcdf", TRUE if legacy else FALSE)
        seti(I, st, o, "_clobber_netcdf", FALSE)
        seti(I, st, o, "_save_metadata", TRUE)
        seti(I, st, o, "_save_any_grids", TRUE)
        lists(I, st, o)
        seti(I, st, o, "_netcdf_coords", CT)
        for p in props_of(c):
            if not p.endswith("figs"):
                seti(I, st, o, p, TRUE)
    R = c.run_method("init_output_file", pre=pre, key=("p13", legacy))
    if R is None:
        return c.unk("layout", "", "init_output_file not found")
    L = "legacy " if legacy else ""
    dims, vars_, handles = {}, {}, {}
    hist = {}
    for e in R.events:
        if e.kind == "call" and e.name == ".createDimension":
            n = arg(e, 0, "dimname")
            if n is None or not isc(R.term(n)):
                c.unk(L + "dimension", at(e), "name not constant")
                continue
            s = arg(e, 1, "size")
            dims.setdefault(cval(R.term(n)), []).append((R.term(s) if s is not None else NONE, e))
        elif e.kind == "call" and e.name == ".createVariable":
            n = arg(e, 0, "varname")
            if n is None or not isc(R.term(n)):
                c.unk(L + "variable", at(e), "name not constant: %s" % show(R.term(n))[:60])
                continue
            d = arg(e, 2, "dimensions")
            dt = arg(e, 1, "datatype")
            vars_.setdefault(cval(R.term(n)), []).append(
                {"e": e, "dims": dims_of(R.term(d)) if d is not None else (), "dt": R.term(dt), "units": None, "data": []})
    for e in R.events:
        if e.kind not in ("extsetattr", "extstore"):
            continue
        t = R.term(e.data[0])
        for b in branches(t):
            nm = None
            if b.op == "ext" and b.args[1] == ".createVariable":
                for x in b.args[3:4]:
                    if isinstance(x, T) and isc(x):
                        nm = cval(x)
            elif b.op == "idx":
                nm = nc_name2(b)
            for v in vars_.get(nm, []):
                if e.kind == "extsetattr" and e.name == "units":
                    v["units"] = R.term(e.data[1])
                elif e.kind == "extstore":
                    v["data"].append((R.term(e.data[2]), e))
    want_d = {coords[0]: NONE, coords[1]: c.s("L"), coords[2]: c.s("W")}
    for n, s in want_d.items():
        g = dims.pop(n, None)
        if g is None or len(g) != 1:
            c.bad(L + "dimension %s" % n, R.where, "created %d times" % (len(g) if g else 0))
            continue
        v = g[0][0]
        if n == coords[0] and norm(v) is ZERO:
            v = NONE
        c.equal(L + "dimension %s has the right size" % n, v, s, at(g[0][1]))
        uncond(c, R, g[0][1], L + "dimension %s is always created" % n)
    want_v = {"time": (("f4",), (coords[0],), "second", None)}
    if legacy:
        want_v["x"] = (("f4",), coords[1:], "meter", c.s("x"))
        want_v["y"] = (("f4",), coords[1:], "meter", c.s("y"))
    else:
        want_v["x"] = (("f4",), ("x",), "meter", c.s("xc"))
        want_v["y"] = (("f4",), ("y",), "meter", c.s("yc"))
    for d in GRIDS.values():
        for n, (a, u) in d.items():
            want_v[n] = (("f4",), coords, u, None)
    for n, k in META_S.items():
        want_v["meta/" + n] = (None, coords[1:] if k else (), "", c.sp(n))
    for n in META_T:
        want_v["meta/" + n] = (None, (coords[0],), "", None)
    sub = truth(c.sp("toggle_subsidence"))
    for n, k in META_SUB.items():
        want_v["meta/" + n] = (None, coords[1:] if k else (), "", c.sp(n))
    for n, (dt, dm, un, data) in want_v.items():
        g = vars_.pop(n, None)
        ob = L + "variable %s" % n
        if not g:
            c.bad(ob, R.where, "not created")
            continue
        if len(g) > 1:
            c.unk(ob, at(g[1]["e"]), "created at several places")
            continue
        v = g[0]
        e = v["e"]
        if v["dims"] is None:
            c.unk(ob + " dimensions", at(e), "dimensions not constant")
        elif tuple(v["dims"]) != tuple(dm):
            c.bad(ob + " dimensions", at(e), "on dimensions %s, required %s" % (v["dims"], dm))
        else:
            c.ok(ob + " dimensions", at(e), str(dm))
        kind = stored_as(v["dt"])
        whole = n.split("/")[-1] in ("L0", "N0", "CTR", "cell_type", "start_subsidence")
        if kind is None:
            c.unk(ob + " type", at(e), "type not constant: %s" % show(v["dt"])[:40])
        elif kind == "real" or whole and kind == "int":
            c.ok(ob + " type", at(e), show(v["dt"]))
        else:
            c.bad(ob + " type", at(e), "stored as %s: values are cut off" % show(v["dt"]))
        if v["units"] is None:
            c.bad(ob + " units", at(e), "no units attribute set")
        elif un:
            c.equal(ob + " units", v["units"], C(un), at(e))
        else:
            c.ok(ob + " units", at(e))
        if data is not None:
            ds = [x for x in v["data"]]
            if not ds:
                c.bad(ob + " holds its values", at(e), "never written")
            else:
                c.equal(ob + " holds its values", ds[-1][0], data, at(ds[-1][1]))
        elif n.split("/")[-1] in META_T and v["data"]:
            st_ = [x for x in v["data"] if x[0] is not NONE]
            if st_:
                c.bad(ob + " is written record by record", at(st_[0][1]), "written once, when the file is created: %s" % show(st_[0][0])[:60])
            else:
                c.ok(ob + " is written record by record", at(e))
        if n.split("/")[-1] in META_SUB:
            c.implied(ob + " exists when subsidence is on", sub, and_(*R.guards(e)), at(e))
            c.implied(ob + " only when subsidence is on", and_(*e.pc), sub, at(e))
        else:
            uncond(c, R, e, ob + " is always created")
    for n, g in vars_.items():
        c.note("additional variable %s at %s" % (n, at(g[0]["e"])))


def stored_as(t):
    """kind of a netCDF element type: real, int, or other (too short or not a number)"""
    nm = cval(t) if isc(t) and isinstance(cval(t), str) else None
    if nm is None:
        x = show(t)
        for k in ("float32", "float64", "float16", "int64", "int32", "int16", "int8", "float", "int", "double", "single"):
            if k in x:
                nm = k
                break
    if nm is None:
        return None
    nm = nm.lstrip("<>=")
    if nm in ("f4", "f8", "f", "d", "float32", "float64", "float", "double", "single"):
        return "real"
    if nm in ("i4", "i8", "i", "int64", "int32", "int", "u4", "u8", "l"):
        return "int"
    return "other"


def nc_name2(t):
    if t.op == "idx" and isc(t.args[1]) and isinstance(cval(t.args[1]), str):
        b, n = t.args[0], cval(t.args[1])
        if b.op == "attr" and b.args[1] in ("variables", "groups"):
            b = b.args[0]
        if b.op == "ext" and b.args[1].endswith("Dataset"):
            return n
        g = nc_name2(b)
        if g is not None:
            return g + "/" + n
    return None


def exists_atom(p):
    for x in subterms(p):
        if x.op == "app" and x.args[0] in ("os.path.exists", "os.path.isfile", "os.path.isdir"):
            return True
    return False


def uncond(c, R, e, ob):
    g = [p for p in R.guards(e) if not exists_atom(p)]
    if e.loops:
        return c.unk(ob, at(e), "inside a loop")
    if g:
        return c.bad(ob, at(e), "only when " + show(and_(*g))[:100])
    return c.ok(ob, at(e))


def p13(c):
    p13_layout(c, False)
    p13_layout(c, True)
    D = c.run_method("create_domain", key="create_domain")
    if D is not None:
        dx = c.sp("dx")
        c.equal("x coordinate of a row is its index times the cell size", at1(D.field("xc")), mul(K, dx), D.last_store("xc"))
        c.equal("y coordinate of a column is its index times the cell size", at1(D.field("yc")), mul(K, dx), D.last_store("yc"))
        for n, m in (("xc", "L"), ("yc", "W")):
            k = length(D.field(n))
            ob = "one coordinate %s per %s" % (n, "row" if m == "L" else "column")
            if k is None:
                c.unk(ob, D.last_store(n), "length not recognised")
            else:
                c.equal(ob, k, c.s(m), D.last_store(n))
    for legacy, co in ((TRUE, ("total_time", "length", "width")), (FALSE, ("time", "x", "y"))):
        coords_for(c, legacy, co)
    wanted(c)


def wanted(c):
    """the file exists exactly if something is to be saved; metadata go with the grids"""
    A = c.run_method("create_other_variables")
    if A is not None:
        c.equal("metadata are saved whenever grids are", sel(truth(A.field("_save_metadata")), ONE, ZERO),
                sel(or_(truth(A.field("_save_any_grids")), truth(c.s("_save_metadata"))), ONE, ZERO), A.last_store("_save_metadata"))
    R = c.run_method("init_output_file")
    ob = "an output file is created exactly if something is to be saved"
    if R is None:
        return c.unk(ob, "", "init_output_file not found")
    mk_ = [e for e, p, k in file_effects(R) if k == "write"]
    if not mk_:
        return c.unk(ob, R.where, "creation of the file not found")
    want = or_(truth(c.s("_save_any_grids")), truth(c.s("_save_metadata")))
    got = or_(*[and_(*[p for p in R.guards(e) if not exists_atom(p)]) for e in mk_])
    # an existing file that must not be replaced is an error (P08), so only the case of no existing file counts here
    got = norm(subst(got, {x: FALSE for x in subterms(got) if x.op == "truth" and exists_atom(x)}))
    c.equal(ob, sel(got, ONE, ZERO), sel(want, ONE, ZERO), at(mk_[0]))


K = sym("$k", "s")


def length(t):
    """number of elements of a vector made from index ranges, or None"""
    ls = {norm(sub(x.args[-1], x.args[1]) if len(x.args) > 2 else x.args[1]) for x in subterms(norm(t))
          if x.op in ("app", "aapp") and x.args[0] == "arange" and len(x.args) in (2, 3)}
    return ls.pop() if len(ls) == 1 else None


def at1(t):
    """element K of a vector"""
    t = norm(t)
    if t.op in ("app", "aapp") and t.args[0] == "arange":
        a = t.args[1:]
        return K if len(a) == 1 else add(a[0], K)
    if t.op in ("add", "mul", "div", "pow"):
        return mk2(t, [at1(x) if isinstance(x, T) else x for x in t.args])
    return t


def mk2(t, a):
    return norm(mk(t.op, *a))


def coords_for(c, legacy, co):
    I = c.run_method("__init__", key="init")
    t = I.field("_netcdf_coords")
    at_ = [x for x in subterms(t) if x.op == "truth" and x.args[0].op == "idx" and
           isc(x.args[0].args[1]) and cval(x.args[0].args[1]) == "legacy_netcdf"]
    n = "layout names with legacy_netcdf = %s" % cval(legacy)
    if len(set(at_)) > 1:
        return c.unk(n, I.where, "dependence on the legacy switch not recognised")
    c.equal(n, subst(t, {at_[0]: legacy}) if at_ else t, mk("tuple", *[C(x) for x in co]), I.last_store("_netcdf_coords"))



# ------------------------------------------------------------------ P08
DESTROY = {"os.remove": 0, "os.unlink": 0, "os.rename": 0, "os.replace": 0, "shutil.move": 0, "shutil.rmtree": 0,
           "os.rmdir": 0, "os.removedirs": 0, "shutil.copy": 1, "shutil.copyfile": 1, "shutil.copy2": 1,
           "os.truncate": 0}


def file_effects(R, events=None):
    """(event, path term, kind) for every call that removes, replaces or truncates a file"""
    out = []
    for e in (events if events is not None else R.events):
        if e.kind != "call":
            continue
        a = [R.term(x) for x in (e.args or [])]
        if e.name in DESTROY and a:
            out.append((e, a[min(DESTROY[e.name], len(a) - 1)], e.name))
            if e.name in ("os.rename", "os.replace", "shutil.move") and len(a) > 1:
                out.append((e, a[1], "target"))
        elif e.name.endswith(".Dataset") or e.name in ("netCDF4.Dataset", "open", "builtins.open", "io.open"):
            m = a[1] if len(a) > 1 else (R.term(e.kwargs["mode"]) if e.kwargs and "mode" in e.kwargs else C("r"))
            if not isc(m) or str(cval(m)).startswith(("w", "x")):
                out.append((e, a[0] if a else UNDEF, "write"))
        elif e.name in (".unlink", ".rename", ".replace", ".rmdir") and e.data is not None and len(a) >= (
                0 if e.name in (".unlink", ".rmdir") else 2):
            pass
    return out


LISTINGS = ("os.listdir", "glob.glob", "glob.iglob", "os.scandir")


def is_output(t):
    for x in subterms(t):
        if isc(x) and isinstance(cval(x), str) and cval(x).endswith(".nc"):
            return True
    return False


def bool_terms(c, t):
    """clobber switch is a boolean: comparisons with True/False become its truth value"""
    cl = c.sp("clobber_netcdf")
    return subst(t, {eq(cl, FALSE): not_(truth(cl)), eq(cl, TRUE): truth(cl)})


def p08_new(c):
    R = c.run_method("init_output_file", key="iof")
    if R is None:
        return c.unk("output file setup", "", "init_output_file not found")
    cl = truth(c.sp("clobber_netcdf"))
    n = 0
    for e, path, kind in file_effects(R):
        if not is_output(path):
            if kind in ("os.remove", "os.unlink", "os.rename", "os.replace", "shutil.move", "shutil.rmtree") and \
                    any(x.op == "ext" and len(x.args) > 1 and str(x.args[1]) in LISTINGS for x in subterms(path)):
                c.bad("only the output file itself is replaced", at(e), "%s of every file found: %s" % (kind, show(path)[:60]))
                continue
            c.unk("file effect %s" % kind, at(e), "path %s" % show(path)[:60])
            continue
        n += 1
        ex = or_(*[truth(app(f, path)) for f in ("os.path.exists",)])
        pc = bool_terms(c, and_(*e.pc))
        # whether the file exists may be asked in other words
        m = {}
        for x in subterms(pc):
            if x.op == "app" and x.args[0] in ("os.path.isfile", "os.path.lexists") and x.args[1] is path:
                m[truth(x)] = ex
        pc = subst(pc, m) if m else pc
        c.implied("existing output file is replaced only with clobber (%s)" % kind, pc, or_(not_(ex), cl), at(e),
                  why="reached with the file present and overwriting disabled", spec=[ex])
    if not n:
        c.unk("output file creation", R.where, "no creation of the output file found")
    # refusing: with an existing file and no clobber an error is raised
    def pre(I, st, o):
        seti(I, st, o, "_clobber_netcdf", FALSE)
        seti(I, st, o, "_save_metadata", TRUE)
    R2 = c.run_method("init_output_file", pre=pre, key="iof2")
    paths = {p for _, p, k in file_effects(R2) if k == "write"}
    if len(paths) == 1:
        path = next(iter(paths))
        exs = R2.escapes()
        ex = truth(app("os.path.exists", path))
        ok = [x for x in exs if x.cls == "FileExistsError"]
        if not ok:
            c.bad("an existing output file without clobber is an error", R2.where, "no FileExistsError raised")
        else:
            c.implied("an existing output file without clobber is an error", ex,
                      or_(*[and_(*x.st.pc) for x in ok]), ok[0].where, why="not raised", spec=[ex])
    # nothing else in a model's life removes or replaces its output
    for nm, key in (("update", "update"), ("finalize", "fin")):
        U = c.run_method(nm, routers=(nm == "update"), key=key)
        for e, path, kind in file_effects(U):
            if is_output(path):
                c.bad("%s leaves the output file in place" % nm, at(e), "%s of %s" % (kind, show(path)[:60]))
                break
        else:
            c.ok("%s leaves the output file in place" % nm, U.where)
    I = c.run_method("__init__", key="init")
    iof = I.enters("init_output_file")
    other = [(e, p, k) for e, p, k in file_effects(I) if is_output(p)
             and not any(getattr(f, "name", "") in ("init_output_file", "load_checkpoint") for f in e.stack)]
    if other:
        c.unk("construction touches the output only in its setup or resume step", at(other[0][0]), other[0][2])
    else:
        c.ok("construction touches the output only in its setup or resume step", I.where)


def lc_run(c, defer, pre=None):
    cls = c.repo.cls("DeltaModel")
    fv = cls.find("load_checkpoint") if cls else None
    n = len(fv.node.args.args) - 1 if hasattr(fv, "node") else 0
    return c.run_method("load_checkpoint", args=(defer,) if n else (), key=("lc", defer, pre), pre=pre)


def p08_resume(c):
    R = lc_run(c, FALSE)
    if R is None:
        return c.unk("resume", "", "load_checkpoint not found")
    evs = [e for e in R.events if not any(getattr(f, "name", "") == "init_output_file" for f in e.stack)]
    eff = [(e, p, k) for e, p, k in file_effects(R, evs) if is_output(p)]
    moves = [(e, p, R.term(e.args[1])) for e, p, k in eff if k in ("os.rename", "os.replace", "shutil.move")]
    writes = [(e, p) for e, p, k in eff if k == "write"]
    removes = [(e, p) for e, p, k in eff if k in ("os.remove", "os.unlink")]
    if not writes:
        return c.unk("resume rewrites the output file", R.where, "no rewriting found")
    if not moves and not removes:
        return c.unk("resume protects the output file", R.where, "scheme not recognised")
    for w, p in writes:
        # the file being overwritten was moved away before
        mv = [m for m in moves if m[1] is p and m[0].seq < w.seq and set(m[0].pc) <= set(w.pc)]
        safe = [m for m in moves if m[2] is not p]
        fresh = not any(m[1] is p for m in moves) and any(m[2] is not p for m in moves)
        if mv or any(r[2] is p and False for r in moves):
            c.ok("resume moves the old file aside before writing the new one", at(w))
        else:
            alt = [m for m in moves if m[1] is p and m[0].seq > w.seq]
            if alt:   # new file written under another name and moved over the old one afterwards
                c.unk("resume moves the old file aside before writing the new one", at(w), "written first, moved later")
            else:
                c.bad("resume moves the old file aside before writing the new one", at(w),
                      "existing output file truncated while it still holds the only copy")
    # the handle of the new file and the last write into it
    for r, p in removes:
        olds = [m for m in moves if m[2] is p]
        if not olds:
            if any(p is w[1] for w in writes) or any(p is m[1] for m in moves):
                c.bad("old output removed only after a complete copy", at(r), "removes %s" % show(p)[:60])
            else:
                c.unk("old output removed only after a complete copy", at(r), "path %s" % show(p)[:60])
            continue
        late = [e for e in evs if e.seq > r.seq and (e.kind == "extstore" or
                (e.kind == "call" and e.name in (".createVariable", ".setncatts", ".setncattr", ".createDimension",
                                                 ".createGroup"))) and from_written(R, e, writes)]
        early = [w for w, _ in writes if w.seq > r.seq]
        if late or early:
            c.bad("old output removed only after a complete copy", at(r),
                  "copying continues at %s" % at((late or early)[0]))
            continue
        c.ok("old output removed only after a complete copy", at(r))
        closed = True
        for w, wp in writes:
            cls_ = [e for e in evs if w.seq < e.seq < r.seq and (
                (e.kind == "exit" and e.data is not None and handle_of(R, e.data, w)) or
                (e.kind == "call" and e.name == ".close" and e.data is not None and handle_of(R, e.data, w)))]
            cls_ = [e for e in cls_ if set(R.guards(e)) <= set(R.guards(r))]
            if not cls_:
                closed = False
        if closed:
            c.ok("old output removed only after the new file is closed", at(r))
        else:
            c.bad("old output removed only after the new file is closed", at(r), "new file still open")
        need = [p_ for p_ in r.pc if p_ not in set().union(*[set(w.pc) for w, _ in writes])]
        c.ok("old output removed on the copying path only", at(r)) if set(r.pc) >= set(writes[0][0].pc) - set(
            need) and any(set(w.pc) <= set(r.pc) for w, _ in writes) else \
            c.bad("old output removed on the copying path only", at(r), "removal reachable without the copy")


def handle_of(R, d, w):
    for t in (d if isinstance(d, tuple) else (d,)):
        t = R.term(t) if not isinstance(t, T) else t
        for x in subterms(t):
            if x.op == "ext" and x.args[1].endswith("Dataset") and len(x.args) > 3:
                m = x.args[3]
                if isinstance(m, T) and isc(m) and str(cval(m)).startswith("w") and x.args[2] is R.term(w.args[0]):
                    return True
    return False


def from_written(R, e, writes):
    d = e.data[0] if isinstance(e.data, tuple) else e.data
    return d is not None and any(handle_of(R, d, w) for w, _ in writes)


def p08_jobs(c):
    """multi-job folders"""
    cls = "BasePreprocessor"
    for nm in ("_prepare_multijob_output", "_write_job_configs"):
        R = c.run_method(nm, cls=cls, key=("pp", nm))
        if R is None:
            c.unk("existing job folders refused (%s)" % nm, "", "no such method")
            continue
        cfg = c.sp("config_dict", cls=cls)
        res = and_(app("in", C("resume_checkpoint"), cfg), eq(mk("idx", cfg, C("resume_checkpoint")), TRUE))
        ex = [x for x in R.escapes() if x.cls == "FileExistsError"]
        isdir = None
        for x in ex:
            for p in x.st.pc:
                for y in subterms(p):
                    if y.op == "truth" and any(z.op in ("app", "ext") and str(z.args[0]).endswith(("is_dir", "exists", "isdir"))
                                               or z.op == "ext" and str(z.args[1]).endswith(("is_dir", "exists"))
                                               for z in subterms(y)):
                        isdir = y
        n = "existing job folder without resuming is an error (%s)" % nm
        if not ex:
            c.bad(n, R.where, "no error raised for an existing folder")
            continue
        if isdir is None:
            c.unk(n, ex[0].where, "folder test not recognised")
            continue
        cond = or_(*[and_(*[p for p in x.st.pc if rel(p, isdir, cfg)]) for x in ex])
        c.implied(n, and_(isdir, not_(res)), cond, ex[0].where, why="not raised")
        c.implied("resuming may reuse job folders (%s)" % nm, cond, not_(res), ex[0].where, why="raised although resuming")


def rel(p, isdir, cfg):
    s = subterms(p)
    return isdir in s or any(x.op == "c" and x.args[0] == "resume_checkpoint" for x in s) or \
        any(isc(x) and cval(x) == "resume_checkpoint" for x in s)


# ------------------------------------------------------------------ P09
def p09(c):
    p09_defer(c)
    R = lc_run(c, FALSE)
    if R is None:
        return c.unk("resume", "", "load_checkpoint not found")
    evs = [e for e in R.events if not any(getattr(f, "name", "") == "init_output_file" for f in e.stack)]
    eff = [(e, p, k) for e, p, k in file_effects(R, evs) if is_output(p)]
    writes = [(e, p) for e, p, k in eff if k == "write"]
    if not writes:
        if not any(e.kind == "call" and e.name.endswith("Dataset") for e in evs):
            return c.bad("the resumed model goes on writing the output file", R.where, "the output file is not opened on resume")
        return c.unk("copy", R.where, "no rewriting of the output file found")
    p09_meta(c)
    # source handle: a data set opened for reading the moved file
    src = None
    for e in evs:
        for x in (e.args or []) + list((e.data if isinstance(e.data, tuple) else [e.data]) if e.data is not None else []):
            try:
                t = R.term(x)
            except Exception:
                continue
            for y in subterms(t):
                if y.op == "ext" and y.args[1].endswith("Dataset") and not (
                        len(y.args) > 3 and isinstance(y.args[3], T) and isc(y.args[3])
                        and str(cval(y.args[3])).startswith(("w", "r+", "a"))):
                    src = y
    if src is None:
        return c.unk("copy", R.where, "source file not found")
    base = set(R.guards(writes[0][0]))
    mode = {}

    def dst(t):
        return handle_of(R, t, writes[0][0])

    calls = [e for e in evs if e.kind in ("call", "extstore", "extsetattr") and e.data is not None and
             dst(e.data[0] if isinstance(e.data, tuple) else e.data)]

    def extra(e, allowed=()):
        return [p for p in R.guards(e) if p not in base and p not in allowed]

    def need(ob, es, pred, allowed=()):
        """at least one event, unconditional apart from 'allowed', satisfying pred"""
        if not es:
            return c.bad(ob, at(writes[0][0]), "not copied")
        bad = None
        for e in es:
            r = pred(e)
            if r is True:
                g = extra(e, allowed)
                if not g:
                    return c.ok(ob, at(e))
                bad = (e, "only when " + show(g[0])[:100])
            elif bad is None:
                bad = (e, r)
        if bad[1] is None:
            return c.unk(ob, at(bad[0]), "not recognised")
        return c.bad(ob, at(bad[0]), bad[1] or "a different value is written")

    def every(e, whats):
        """the loops around the event enumerate everything of that kind"""
        owner = src
        for w in whats:
            r = loops_over(R, e, w, src, owner)
            if r is not True:
                return "not for every one of the %s" % w if r is False else None
            if w == "groups" and len(whats) > 1:
                g = [x for l in e.loops for x in subterms(R.I.loops[l].iter) if isinstance(R.I.loops[l].iter, T) and x.op == "idx"
                     and x.args[0].op == "attr" and x.args[0].args[1] == "groups" and x.args[0].args[0] is src]
                owner = g[0] if g else src
        return True

    def vpath(t):
        """('root', var) / (group, var) of a variable handle in src"""
        if t.op == "ext" and t.args[1] == ".createVariable" and len(t.args) > 3:
            return target(t.args[2], t.args[3])
        if t.op == "idx" and t.args[0].op == "attr" and t.args[0].args[1] == "variables":
            b = t.args[0].args[0]
            if b is src or (b.op == "ext" and dst(b)):
                return ("root", t.args[1])
            if b.op == "idx" and b.args[0].op == "attr" and b.args[0].args[1] == "groups":
                return (b.args[1], t.args[1])
            if b.op == "idx" and (b.args[0] is src or b.args[0].op == "ext"):
                return (b.args[1], t.args[1])
        if t.op == "idx" and t.args[0].op == "ext":
            k = t.args[1]
            m = joined(k)
            return m if m else ("root", k)
        return None

    def group_of(o):
        """the group a handle of the new file stands for"""
        if o.op == "ext" and o.args[1] == ".createGroup" and len(o.args) > 3:
            return o.args[3]
        if o.op == "idx" and (o.args[0].op == "attr" and o.args[0].args[1] == "groups" or
                              o.args[0].op == "ext" and o.args[0].args[1].endswith("Dataset")):
            return o.args[1]
        return None

    def target(o, k):
        g = group_of(o)
        return (g, k) if g is not None else (joined(k) or ("root", k))

    def joined(k):
        k = norm(k)
        parts = flat_str(k)
        if len(parts) == 3 and isc(parts[1]) and cval(parts[1]) == "/":
            return (parts[0], parts[2])
        return None

    # global attributes
    es = [e for e in calls if e.name in (".setncattr", ".setncatts") and is_ds(R, e)]
    def ga(e):
        a = [R.term(x) for x in e.args]
        if e.name == ".setncattr" and len(a) == 2:
            nm = a[0]
            ok = loops_over(R, e, "ncattrs", src)
            if ok is False:
                return "not for every attribute"
            same = any(x.op == "app" and str(x.args[0]).endswith("getncattr") and x.args[1] is src and x.args[2] is nm
                       for x in subterms(a[1])) and a[1].op == "app"
            return True if ok and same else "value %s" % show(a[1])[:80]
        if e.name == ".setncatts" and len(a) == 1:
            return True if src in subterms(a[0]) else "value %s" % show(a[0])[:80]
        return "not recognised"
    need("resume copies the global attributes", es, ga)
    # dimensions
    es = [e for e in calls if e.name == ".createDimension"]
    if not es:
        c.bad("resume copies the dimensions", at(writes[0][0]), "not copied")
    else:
        ok = True
        cov = FALSE
        for e in es:
            a = [R.term(x) for x in e.args]
            sz = a[1] if len(a) > 1 else NONE
            unl = [x for x in subterms(and_(*e.pc)) | subterms(sz) if x.op == "truth" and "isunlimited" in show(x)]
            lo = loops_over(R, e, "dimensions", src)
            if lo is False or (lo and not unl and sz.op == "app" and sz.args[0] in ("len", "size")):
                c.bad("resume copies the dimensions", at(e), "not for every dimension" if lo is False else
                      "an unlimited dimension becomes a fixed one")
                ok = None
                break
            if not (unl and lo):
                c.unk("resume copies the dimensions", at(e), "not recognised")
                ok = None
                break
            u = unl[0]
            cur = and_(*[p for p in R.guards(e) if p not in base])
            cov = or_(cov, cur)
            dim = [x for x in subterms(u) if x.op == "idx"]
            want = sel(u, NONE, app("len", dim[0] if dim else UNDEF))
            pc = cur
            c.equal("resume: size of a copied dimension", sel(pc, sz, NONE), sel(pc, want, NONE), at(e))
        if ok:
            c.equal("resume copies every dimension", sel(cov, ONE, ZERO), ONE, at(es[0]))
    # groups
    es = [e for e in calls if e.name == ".createGroup"]
    need("resume copies the groups", es, lambda e: every(e, ["groups"]))
    # variables
    for scope in ("group", "root"):
        ws = ["groups", "variables"] if scope == "group" else ["variables"]
        cr = [e for e in calls if e.name == ".createVariable" and vscope(target(
            R.term(e.data[0] if isinstance(e.data, tuple) else e.data), R.term(e.args[0]) if e.args else UNDEF)) == scope]
        def okcr(e):
            a = [R.term(x) for x in e.args]
            if len(a) < 3:
                return "dimensions or type missing"
            for t, f in ((a[1], ("datatype", "dtype")), (a[2], ("dimensions",))):
                if not (t.op == "attr" and t.args[1] in f and vpath(t.args[0])):
                    return "%s is %s" % (f[0], show(t)[:80])
                if vpath(t.args[0]) != target(R.term(e.data[0] if isinstance(e.data, tuple) else e.data), a[0]):
                    return "%s of another variable" % f[0]
            return every(e, ws)
        need("resume creates every %s variable with its type and dimensions" % scope, cr, okcr)
        at_ = [e for e in calls if e.name == ".setncatts" and not is_ds(R, e) and
               (vscope(vpath(R.term(e.data[0] if isinstance(e.data, tuple) else e.data))) == scope)]
        def okat(e):
            v = vpath(R.term(e.data[0] if isinstance(e.data, tuple) else e.data))
            a = R.term(e.args[0])
            x = [y for y in subterms(a) if vpath(y) == v and src in subterms(y)]
            return every(e, ws) if x else "attributes %s" % show(a)[:80]
        at2 = [e for e in calls if e.name == ".setncattr" and not is_ds(R, e) and
               (vscope(vpath(R.term(e.data[0] if isinstance(e.data, tuple) else e.data))) == scope)]
        need("resume copies the attributes of every %s variable" % scope, at_ or at2, okat if at_ else (lambda e: True))
        st_ = [e for e in calls if e.kind == "extstore" and vscope(vpath(R.term(e.data[0]))) == scope]
        def okst(e):
            v = vpath(R.term(e.data[0]))
            ix = R.term(e.data[1])
            if not (ix.op == "slice" or (isc(ix) and cval(ix) is Ellipsis)) or (
                    ix.op == "slice" and any(x is not NONE for x in ix.args if isinstance(x, T))):
                return "only part %s is written" % show(ix)[:40]
            val = R.term(e.data[2])
            return every(e, ws) if vpath(val) == v and src in subterms(val) else "data %s" % show(val)[:80]
        need("resume copies the data of every %s variable" % scope, st_, okst)
    # missing file: warned, new file, records restart
    miss = [e for e in R.enters("init_output_file")]
    n = "a missing output file is recreated on resume"
    paths = [x for x in subterms(and_(*writes[0][0].pc)) if x.op == "truth" and x.args[0].op == "app"
             and x.args[0].args[0] in ("os.path.isfile", "os.path.exists")]
    if not miss:
        c.bad(n, R.where, "no new output file is set up")
    elif not paths:
        c.unk(n, at(miss[0]), "file test not recognised")
    else:
        want = and_(or_(truth(c.s("_save_any_grids")), truth(c.s("_save_metadata"))), not_(paths[0]))
        c.implied(n, want, and_(*R.guards(miss[0])), at(miss[0]), why="not set up")
        wn = [e for e in evs if (e.kind == "warn" and e.name.startswith("warnings.warn")) or
              (e.kind == "call" and e.name in (".warning", ".error"))]
        if not wn:
            c.bad("a missing output file is reported on resume", R.where, "no warning")
        else:
            c.implied("a missing output file is reported on resume", want, or_(*[and_(*R.guards(e)) for e in wn]),
                      at(wn[0]), why="no warning")
        si = subst(R.prop("save_iter"), {paths[0]: FALSE, truth(c.s("_save_any_grids")): TRUE, truth(c.s("_save_metadata")): TRUE})
        n = "records restart at zero in a recreated file"
        if si is ZERO or num(si) == 0:
            c.ok(n, R.last_store("_save_iter"))
        elif any(x.op in ("unk", "sel", "phi", "lout") for x in subterms(si)):
            c.equal(n, si, ZERO, R.last_store("_save_iter"))
        else:
            c.bad(n, R.last_store("_save_iter"), "record index is %s" % show(si)[:100])
    # the resumed model goes on writing into the copied file
    n = "the resumed model appends to the copied file"
    cut = [e for e, p in writes if p is writes[0][1] and e is not writes[0][0]]
    h = [x for x in subterms(R.field("output_netcdf")) if x.op == "ext" and x.args[1].endswith("Dataset")
         and not any(getattr(f, "name", "") == "init_output_file" for e in R.events if e.kind == "call" and e.data is x for f in e.stack)]
    if cut:
        c.bad(n, at(cut[0]), "the copied file is opened for writing from scratch")
    else:
        ro = [x for x in h if x.args[2] is writes[0][1] and (len(x.args) < 4 or (isc(x.args[3]) and cval(x.args[3]) == "r"))]
        if ro:
            c.bad(n, R.last_store("output_netcdf"), "opened read-only")
        elif not h:
            c.unk(n, R.where, "handle not found")
        else:
            c.ok(n, R.last_store("output_netcdf"))


def p09_meta(c):
    """metadata are registered again, so that records after the resume hold them"""
    ob = "metadata variables are registered again on resume"
    N = c.run_method("init_output_file", pre=lists, key="iof_lists")
    R = lc_run(c, FALSE, lists)
    evs = [e for e in R.events if not any(getattr(f, "name", "") == "init_output_file" for f in e.stack)]
    w = [e for e, p, k in file_effects(R, evs) if k == "write" and is_output(p)]
    if not w:
        return c.unk(ob, R.where, "rewriting not found")
    w = w[0]
    names = {e.name for e in N.events if e.kind == "dictset"} if N is not None else set()
    if not names:
        return c.unk(ob, R.where, "no registration found in a new run")
    hyp = and_(truth(c.s("_save_metadata")), *R.guards(w))
    for nm in sorted(x for x in names if isinstance(x, str)):
        new = [e for e in N.events if e.kind == "dictset" and e.name == nm]
        es = [e for e in evs if e.kind == "dictset" and e.name == nm]
        h = and_(hyp, or_(*[and_(*[p for p in N.guards(e) if not exists_atom(p)]) for e in new]))
        if not es:
            c.bad(ob + " (%s)" % nm, R.where, "not registered")
        else:
            c.implied(ob + " (%s)" % nm, h, or_(*[and_(*R.guards(e)) for e in es]), at(es[0]), why="not registered")


def p09_defer(c):
    """a resume whose output is deferred (job set up in another process) leaves the files alone, and only then"""
    D = lc_run(c, TRUE)
    if D is None:
        return
    eff = [e for e, p, k in file_effects(D)] + [e for e in D.events if e.kind == "call" and e.name.endswith("Dataset")]
    if len(D.fv.node.args.args) > 1:
        if eff:
            c.bad("a deferred resume leaves the output file to the job", at(eff[0]), "opened or changed while deferred")
        else:
            c.ok("a deferred resume leaves the output file to the job", D.where)
    fv = c.repo.cls("DeltaModel").find("__init__")
    if "defer_output" in [x.arg for x in fv.node.args.args + fv.node.args.kwonlyargs]:
        v = sym("$defer", "s")
        I = c.run_method("__init__", kw={"defer_output": v}, key="init_defer")
        for e in I.enters("load_checkpoint"):
            if len(e.args) > 1 and isinstance(e.args[1], T):
                c.equal("the constructor defers output on resume exactly when told to", sel(truth(e.args[1]), ONE, ZERO),
                        sel(truth(v), ONE, ZERO), at(e))


def vscope(v):
    return None if v is None else ("root" if v[0] == "root" else "group")


def flat_str(k):
    if k.op in ("concat", "add") or (k.op == "app" and k.args[0] in ("concat", "fmt", "stradd")):
        out = []
        for x in k.args:
            if isinstance(x, T):
                out += flat_str(x)
        return out
    return [k]


def is_ds(R, e):
    t = R.term(e.data[0] if isinstance(e.data, tuple) else e.data)
    return t.op == "ext" and t.args[1].endswith("Dataset")


def mentions_op(t, nm, src):
    return any(x.op == "app" and str(x.args[0]).endswith(nm) and src in x.args for x in subterms(t))


def whole(t, what, src):
    """True: the iterable enumerates every element of src.<what>; False: only some; None: something else"""
    t = norm(t)
    if t.op == "attr" and t.args[1] == what and t.args[0] is src:
        return True
    if t.op == "app" and str(t.args[0]).endswith("." + what) and src in t.args:
        return True
    if t.op == "app" and t.args[0] in ("view.keys", "view.items", "view.values", "list", "tuple", "sorted", "reversed", "enumerate"):
        return whole(t.args[1], what, src)
    if t.op == "idx" and t.args[1].op == "slice" and whole(t.args[0], what, src):
        return True if all(x is NONE for x in t.args[1].args[:2]) else False
    if t.op == "comp":
        gens = [x for x in t.args if isinstance(x, T) and x.op == "gen"]
        if len(gens) == 1 and whole(gens[0].args[1], what, src):
            return True if t.args[1] is TRUE else False
    if t.op == "app" and t.args[0] in ("filter", "islice", "itertools.islice") and any(
            isinstance(x, T) and whole(x, what, src) for x in t.args[1:]):
        return False
    return None


def loops_over(R, e, what, src, owner=None):
    """the event runs once for every element of src.<what>: True, or False / None when shown otherwise / not recognised"""
    res = None
    for l in e.loops:
        L = R.I.loops.get(l)
        if L is None or not isinstance(L.iter, T):
            continue
        w = whole(L.iter, what, owner if owner is not None else src)
        if w is None:
            continue
        if w and L.exits:
            w = False
        if w:
            return True
        res = w
    return res


# ------------------------------------------------------------------ registry
RULES = {
    "P04": {"fns": [p04], "min": 40, "level": "other",
            "explain": "Abstract interpretation of a save event with every built-in variable and one custom grid and metadata entry registered: "
                       "each write into the open output file is named, and its record index, value, condition and position before the sync "
                       "are decided for all switch values."},
    "P08": {"fns": [p08_new, p08_resume, p08_jobs], "min": 10, "level": "other",
            "explain": "Enumeration of every call that removes, renames or truncates a file in construction, update, finalize and resume; the "
                       "path condition of each must imply permission, and on resume the order move aside, write, close, remove is checked."},
    "P09": {"fns": [p09], "min": 12, "level": "other",
            "explain": "Dataflow from the old output file to the new one during resume: each kind of content must flow unconditionally from the "
                       "corresponding source element."},
    "P12": {"fns": [p12], "min": 60, "level": "other",
            "explain": "Effect summary of every save switch on an arbitrary registration list, for both settings: keys added and removed, "
                       "and the attribute, units and coordinates registered."},
    "P13": {"fns": [p13], "min": 60, "level": "other",
            "explain": "All dimension and variable creations of the output file setup, in both layouts with every variable registered, "
                       "compared with the required table (name, dimensions, units, values, condition)."},
}
