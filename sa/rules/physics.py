"""Per-step laws of the sediment routing and of the end of a timestep."""
import os

from ..core import *
from ..cells import cell, N
from .state import upd

Q4 = C(4)


def loc_of(R, name, obj=None):
    """the location loops change a field through: the array in place, the attribute, or a local variable stored at the end"""
    v = R.raw(name, obj)
    l = ("r", v.id) if isinstance(v, Ref) else None
    loops = list(R.I.loops.values())
    if l is None or not any(l in L.phi for L in loops):
        f = ("f", (obj or R.obj).id, name)
        if any(f in L.phi for L in loops):
            return f
        t = R.field(name) if obj is None else None
        for L in loops:
            for k, x in L.out.items():
                if t is not None and x is t and x is not L.init.get(k):
                    return k
    return l


def inner(R, loc):
    """innermost loop that changes the given location"""
    c = [L for L in R.I.loops.values() if loc in L.phi]
    return max(c, key=lambda L: (len(L.outer), L.id)) if c else None


def outermost(R, loc):
    c = [L for L in R.I.loops.values() if loc in L.phi]
    return min(c, key=lambda L: (len(L.outer), L.id)) if c else None


def ends(L):
    return ([L.end] if not L.end.dead else []) + [q for q in L.exits if not q.dead]


def written(t, base):
    """indices at which t differs from base through stores; None if the shape is not a chain of stores on base"""
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return True
        seen.add(x)
        if x is base:
            return True
        if x.op == "store":
            if x.args[1] not in out:
                out.append(x.args[1])
            return go(x.args[0])
        if x.op == "sel":
            return go(x.args[1]) and go(x.args[2])
        return False
    return out if go(t) else None


def remaining(R, L, vs):
    """the location that holds the parcel's remaining volume"""
    cand = [l for l in L.phi if l in L.init and norm(L.init[l]) is norm(vs) and L.next.get(l) is not L.phi[l]]
    if cand:
        return cand[0], True
    cand = [l for l in L.phi if l[-1] == "Vp_res" or l[-1] == "Vp_res_loc"]
    return (cand[0], False) if cand else (None, False)


class Step:
    """one move of one parcel, as a transition of the model state"""

    def __init__(self, c, which):
        self.c = c
        m = "route_all_%s_parcels" % which
        self.R = R = c.run_method(m, routers=True)
        self.ok = False
        if R is None:
            return
        self.m = m
        self.leta = loc_of(R, "eta")
        self.L = inner(R, self.leta) if self.leta else None
        if self.L is None:
            return
        self.vs = c.s("Vp_sed")
        self.lres, self.full = remaining(R, self.L, self.vs)
        self.where = "%s (%s)" % (self.L.where, self.L.fn.qual if self.L.fn else m)
        self.ok = True

    def phi(self, name):
        l = loc_of(self.R, name)
        if l in self.L.phi:
            return self.L.phi[l]
        return self.R.field(name)

    def next(self, name, st):
        l = loc_of(self.R, name)
        return self.R.I.loc_term(l, st)

    def res0(self):
        return self.L.phi[self.lres]

    def res1(self, st):
        return self.R.I.loc_term(self.lres, st)


def possible(S, p):
    """values the loop state can have when a step is taken: depth as the surface and bed at the cell say, any number of steps taken"""
    R, L = S.R, S.L
    dep = sub(idx(R.field("stage"), p), idx(S.phi("eta"), p))
    d = tmax(ZERO, dep)
    m = {idx(S.phi("depth"), p): d}
    if p.op == "tuple" and len(p.args) == 2:
        m[idx(S.phi("pad_depth"), mk("tuple", add(p.args[0], ONE), add(p.args[1], ONE)))] = d
    for l, x in L.phi.items():
        if l in L.init and num(L.init[l]) == 0 and isinstance(L.next.get(l), T) and norm(sub(L.next[l], x)) is ONE:
            m[x] = sym("$taken", "s")
    return m


def steps(c, which):
    k = ("step", which)
    if k not in c.cache:
        c.cache[k] = Step(c, which)
    return c.cache[k]


def full_volume(c, S, which):
    """every parcel starts with the parcel volume, whatever earlier parcels did"""
    R, L, w = S.R, S.L, S.where
    if S.full:
        c.ok("%s parcels start with the full parcel volume" % which, w)
    elif any(x is o.phi.get(S.lres) for o in R.I.loops.values() if o is not L for x in subterms(L.init[S.lres])):
        c.bad("%s parcels start with the full parcel volume" % which, w,
              "a parcel starts with what an earlier parcel was left with: %s" % show(L.init[S.lres])[:100])
    else:
        c.equal("%s parcels start with the full parcel volume" % which, L.init[S.lres], S.vs, w)


def all_routed(c, S, which):
    """each of the drawn starts is routed once, from the upstream row"""
    R, L, w = S.R, S.L, S.where
    ob = "each drawn %s parcel is routed once, from its start in the upstream row" % which
    outer = [o if hasattr(o, "phi") else R.I.loops[o] for o in L.outer]
    if len(outer) != 1:
        return c.unk(ob, w, "%d loops around the parcel steps" % len(outer))
    Lo = outer[0]
    e = mk("elem", Lo.id, "i", "s")
    for st in ends(L)[:1]:
        ps = written(S.next("eta", st), S.phi("eta"))
        if not ps or len(ps) != 1 or ps[0].op != "tuple" or len(ps[0].args) != 2:
            return c.unk(ob, w, "cell not identified")
        at0 = []
        for q in ps[0].args:
            ls = [l for l in L.phi if any(x is L.phi[l] for x in (q.args if q.op == "add" else (q,)))]
            if len(ls) != 1:
                return c.unk(ob, w, "position not identified")
            at0.append(L.init[ls[0]])
    px, py = at0
    it = Lo.iter
    if Lo.exits:
        return c.bad(ob, w, "the loop over the parcels can stop early")
    if not isinstance(it, T):
        return c.unk(ob, w, "loop over the parcels not recognised")
    if num(px) != 0:
        plain = all(x.op in ("c", "add", "mul", "elem", "sel", "lt", "le", "eq", "mod", "fdiv") or x.op == "pw" for x in subterms(px))
        return (c.bad if plain else c.unk)(ob, w, "starts in row " + show(px)[:60])
    if not (py.op == "idx" and e in subterms(py.args[1])) and not (py.op == "idx" and py.args[1].op in ("c", "add")):
        return c.unk(ob, w, "starts in column " + show(py)[:80])
    t0, k = py.args
    if any(x.op == "slice" for x in subterms(t0) if x.op != "lout") and t0.op == "idx":
        return c.bad(ob, w, "only some of the starts are used: " + show(t0)[:80])
    lo0 = it.args[1] if it.op == "app" and it.args[0] == "range" else ZERO
    shifted = num(lo0) not in (None, 0) and norm(k) is norm(sub(e, lo0))
    if k is not e and not shifted:
        plain = all(x.op in ("c", "add", "mul", "elem", "sel", "lt", "le", "eq", "app", "pw") and
                    (x.op != "app" or x.args[0] in ("mod", "fdiv")) or x.op in ("mod", "fdiv") for x in subterms(k))
        return (c.bad if plain else c.unk)(ob, w, "parcel k starts at start " + show(k)[:60])
    if it.op == "app" and it.args[0] == "range":
        lo, hi, stp = it.args[1:4]
        if shifted:
            lo, hi = ZERO, norm(sub(hi, lo))
        N = [x for x in subterms(hi) if (x.op == "idx" and num(x.args[1]) == 0 and x.args[0].op in ("shape", "app") and t0 in subterms(x))
             or (x.op == "app" and x.args[0] in ("len", "size") and x.args[1] is t0)]
        es = R.enters("get_start_indices")
        N += [x for q in es if len(q.args) > 2 for x in (R.term(q.args[2]),)]
        N += [x for x in subterms(hi) if x.op == "idx" and x.args[0] in N and num(x.args[1]) == 0]    # shape of empty(n)
        N.sort(key=lambda x: x.op != "idx")
        if num(lo) == 0 and num(stp) == 1 and hi in N:
            return c.ok(ob, w)
        if not N:
            return c.unk(ob, w, "loop over " + show(it)[:80])
        if num(stp) != 1:
            return (c.bad if num(stp) not in (None, -1) else c.unk)(ob, w, "loop over " + show(it)[:80])
        if num(lo) != 0:
            return (c.bad if num(lo) is not None else c.unk)(ob, w, "the loop starts at parcel " + show(lo)[:40])
        return c.equal(ob, subst(hi, {N[0]: sym("$starts")}), sym("$starts"), w)
    if it is t0:
        return c.ok(ob, w)
    c.unk(ob, w, "loop over " + show(it)[:80])


# ------------------------------------------------------------------ P18
def p18(c):
    for which, own, other in (("sand", "Vp_dep_sand", "Vp_dep_mud"), ("mud", "Vp_dep_mud", "Vp_dep_sand")):
        S = steps(c, which)
        if not S.ok:
            c.unk("%s parcels: routing loop" % which, "", "not found")
            continue
        R, L = S.R, S.L
        w = S.where
        if S.lres is None:
            c.unk("%s parcels: remaining volume" % which, w, "no location holds the parcel's volume")
            continue
        full_volume(c, S, which)
        dx = c.sp("dx")
        for i, st in enumerate(ends(L)):
            e0, e1 = S.phi("eta"), S.next("eta", st)
            ps = written(e1, e0)
            if ps is None:
                c.unk("%s parcels: bed update" % which, w, "not a set of cell updates")
                continue
            if len(ps) != 1:
                c.bad("%s parcel step changes the bed in one cell only" % which, w,
                      "%d cells written: %s" % (len(ps), [show(p)[:60] for p in ps]))
                continue
            p = ps[0]
            c.ok("%s parcel step changes the bed in one cell only" % which, w)
            d = sub(idx(e1, p), idx(e0, p))
            v = sub(S.res1(st), S.res0())
            nz = [("p", dx, 1)]
            ab = abstract([idx(S.next("qs", st), p)]) if which == "sand" else {}
            ab.update(cell_names(p))
            may = {subst(k, ab): subst(x, ab) for k, x in possible(S, p).items()}
            c.equal("%s parcel step: volume lost by the parcel equals volume gained by the bed" % which,
                    subst(mul(mul(dx, dx), d), ab), subst(neg(v), ab), w, facts=nz, run=R, also=may)
            o0, o1 = S.phi(own), S.next(own, st)
            ps = written(o1, o0)
            if ps is None:
                c.unk("%s parcel step records its deposition" % which, w)
            else:
                c.equal("%s parcel step records its deposition" % which, subst(idx(o1, p), ab),
                        subst(add(idx(o0, p), sel(lt(neg(v), ZERO), ZERO, neg(v))), ab), w, run=R, also=may)
                if [q for q in ps if norm(q) is not norm(p)]:
                    c.bad("%s deposition recorded at the cell that received it" % which, w, "another cell is written")
                else:
                    c.ok("%s deposition recorded at the cell that received it" % which, w)
            lo = loc_of(R, other)
            if lo in L.phi and S.next(other, st) is not L.phi[lo]:
                c.bad("%s parcels never record deposition of the other class" % which, w, "%s is written" % other)
            else:
                c.ok("%s parcels never record deposition of the other class" % which, w)
        through_steps(c, which, S, ("eta", own, other))
    cleared(c)


def through_steps(c, which, S, names):
    """outside the parcel steps the bed and the deposits are not touched by the routing"""
    R, L = S.R, S.L
    for n in names:
        l = loc_of(R, n)
        lo = outermost(R, l)
        if lo is None:
            continue
        if lo.init.get(l) is c.s(n) and R.field(n) is lo.out.get(l) and \
                (lo is L or (L.init.get(l) is lo.phi[l] and lo.next.get(l) is L.out.get(l))):
            c.ok("%s routing: '%s' changes only through parcel steps" % (which, n), S.where)
        else:
            c.bad("%s routing: '%s' changes only through parcel steps" % (which, n), R.last_store(n),
                  "value outside the parcel steps: %s" % show(R.field(n))[:120])


def cleared(c):
    """a new timestep starts with no deposits"""
    R = c.run_method("init_sediment_iteration")
    if R is None:
        return c.unk("deposits are cleared", "", "init_sediment_iteration not found")
    for n in ("Vp_dep_sand", "Vp_dep_mud", "qs"):
        c.equal("'%s' is cleared before the parcels of a timestep" % n, cells(R.field(n)), ZERO, R.last_store(n))


WHOLE = {"cell_type", "pad_cell_type", "iwalk_flat", "jwalk_flat", "num_starts", "start_indices", "px", "py", "stepmax"}


def precise(c, names):
    """the declared type of a router field can hold the values the model gives it"""
    seen = 0
    for n, ty, w in declared(c):
        if n not in names:
            continue
        seen += 1
        k = ty.split("[")[0].split(".")[-1]
        if n not in WHOLE and (k.startswith("int") or k.startswith("uint") or k in ("boolean", "bool_", "float16")):
            c.bad("router field '%s' keeps its value" % n, w, "declared as %s: fractions are lost" % ty)
        else:
            c.ok("router field '%s' keeps its value" % n, w)
    return seen


def declared(c):
    """(field, declared type, place) of the compiled router classes"""
    import ast
    out = []
    for cn in ("SandRouter", "MudRouter"):
        cl = c.repo.cls(cn)
        if cl is None:
            continue
        for d in getattr(cl.node, "decorator_list", []):
            if not (isinstance(d, ast.Call) and d.args):
                continue
            spec = d.args[0]
            rel = "pyDeltaRCM/" + os.path.basename(str(cl.mod.path))
            if isinstance(spec, ast.Name):
                for st in cl.mod.tree.body:
                    if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == spec.id for t in st.targets):
                        spec = st.value
                        break
            if isinstance(spec, ast.Call) and spec.args:
                spec = spec.args[0]
            prs = []
            if isinstance(spec, (ast.List, ast.Tuple)):
                prs = [(e.elts[0], e.elts[1]) for e in spec.elts if isinstance(e, ast.Tuple) and len(e.elts) == 2]
            elif isinstance(spec, ast.Dict):
                prs = list(zip(spec.keys, spec.values))
            for k, v in prs:
                if isinstance(k, ast.Constant):
                    out.append((k.value, ast.unparse(v), "%s:%d (%s)" % (rel, v.lineno, cn)))
    return out


def cell_names(p):
    """name the row and column of a cell, whatever expression selects it"""
    if p.op == "tuple" and len(p.args) == 2:
        return {a: sym(n, "s") for a, n in zip(p.args, ("$row", "$col")) if not isc(a)}
    return {}


def cells(t):
    """value of an arbitrary cell"""
    if t.op == "aapp" and t.args[0] in ("zeros", "zeros_like", "full", "full_like"):
        return t
    return t


# ------------------------------------------------------------------ P19
def p19(c):
    dx, dt = c.sp("dx"), c.sp("dt")
    beta = c.s("_beta")
    for which in ("sand", "mud"):
        S = steps(c, which)
        if not S.ok or S.lres is None:
            c.unk("%s parcels: routing loop" % which, "", "not found")
            continue
        R, L, w = S.R, S.L, S.where
        for st in ends(L):
            e0, e1 = S.phi("eta"), S.next("eta", st)
            ps = written(e1, e0)
            if not ps or len(ps) != 1:
                c.unk("%s parcel step: cell" % which, w, "cell not identified")
                continue
            p = ps[0]
            U = idx(S.phi("uw"), p)
            stage = idx(R.field("stage"), p)
            dep = sub(stage, idx(e0, p))
            q = mul(div(dep, Q4), mul(dx, dx))
            qa = mul(div(tabs(dep), Q4), mul(dx, dx))
            moder = idx(R.field("mod_erosion"), p)
            res = S.res0()

            def ldep(V):
                return sel(lt(dep, ZERO), ZERO, tmin(V, q))

            def lero(V):
                return tmin(V, sel(lt(dep, ZERO), mul(div(neg(dep), Q4), mul(dx, dx)), q))

            def ero(Ue):
                return div(mul(mul(moder, S.vs), sub(power(U, beta), power(Ue, beta))), power(Ue, beta))
            if which == "sand":
                qs1 = idx(S.next("qs", st), p)
                Ue = c.s("U_ero_sand")
                cap = mul(div(mul(c.s("qs0"), c.sp("f_bedload")), power(c.sp("u0"), beta)), power(U, beta))
                want = sel(lt(cap, qs1), ldep(res),
                           sel(and_(lt(Ue, U), lt(qs1, cap)), neg(lero(ero(Ue))), ZERO))
            else:
                Ue, Ud = c.s("U_ero_mud"), c.s("U_dep_mud")
                d = div(mul(mul(c.s("_lambda"), res), sub(power(Ud, beta), power(U, beta))), power(Ud, beta))
                want = sel(lt(Ue, U), neg(lero(ero(Ue))), sel(lt(U, Ud), ldep(d), ZERO))
            got = sub(S.res0(), S.res1(st))
            m = abstract([U, stage, moder, idx(e0, p)] + ([qs1] if which == "sand" else []))
            pn = cell_names(p)
            may = {subst(subst(k, m), pn): subst(subst(x, m), pn) for k, x in possible(S, p).items()}
            c.equal("%s deposition and erosion follow the law" % which, subst(subst(got, m), pn), subst(subst(want, m), pn), w, run=R, also=may)
        # moves
        if which == "sand":
            _partition(c, S)
        else:
            lq = loc_of(R, "qs")
            if lq in L.phi:
                c.bad("mud parcels leave the bedload flux alone", w, "qs is written")
            else:
                c.ok("mud parcels leave the bedload flux alone", w)


def abstract(ts):
    """replace composite terms by fresh symbols so that the comparison only sees their roles"""
    return {t: sym("$%d" % i, "s") for i, t in enumerate(ts) if t.op != "c"}


def step_terms(t):
    """the row/column step terms used in an index"""
    out = []
    for x in subterms(t):
        if x.op == "idx" and x.args[0].op == "sym" and x.args[0].args[0].split(".")[-1] in ("iwalk_flat", "jwalk_flat"):
            out.append(x)
    return out


def _partition(c, S):
    R, L, w = S.R, S.L, S.where
    dx, dt = c.sp("dx"), c.sp("dt")
    lq = loc_of(R, "qs")
    if lq not in L.phi:
        return c.bad("sand flux is credited along the path", w, "qs is not updated per step")
    for st in ends(L):
        q0, q1 = L.phi[lq], R.I.loc_term(lq, st)
        ps = written(S.next("eta", st), S.phi("eta"))
        if not ps:
            return c.unk("sand flux is credited along the path", w)
        p = ps[0]
        iv = [x for x in step_terms(p) if x.args[0].args[0].endswith("iwalk_flat")]
        jv = [x for x in step_terms(p) if x.args[0].args[0].endswith("jwalk_flat")]
        if len(set(iv)) != 1 or len(set(jv)) != 1 or iv[0].args[1] is not jv[0].args[1]:
            return c.unk("sand flux is credited along the path", w, "step terms not identified")
        half = div(div(div(S.res0(), C(2)), dt), dx)
        bad = None
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                m = {iv[0]: C(a), jv[0]: C(b)}
                p1 = subst(p, m)
                p0 = subst(p, {iv[0]: ZERO, jv[0]: ZERO})
                got = subst(q1, m)
                want = q0
                if a or b:
                    want = store(want, p0, add(idx(want, p0), half))
                    want = store(want, p1, add(idx(want, p1), half))
                for cell in (p0, p1):
                    r = decide_equal(idx(got, cell), idx(want, cell))
                    if r is not None:
                        bad = (a, b, r)
                wr = written(got, q0)
                if wr is None or any(all(norm(x) is not norm(y) for y in (p0, p1)) for x in wr):
                    bad = (a, b, (None, got, want))
        if bad:
            c.bad("sand flux is credited half to the cell left and half to the cell entered", w,
                  "for a step of (%d, %d): %s, required %s" % (bad[1], bad[0], show(bad[2][1])[:150], show(bad[2][2])[:150]))
        else:
            c.ok("sand flux is credited half to the cell left and half to the cell entered", w, "9 step directions")



I_, J_ = sym("$i", "s"), sym("$j", "s")
IJ = (I_, J_)


def at_cell(R, name):
    return cell(R.field(name), IJ)


def inlet_cell(c):
    """condition: the cell is an inlet cell of the upstream row"""
    return and_(eq(I_, ZERO), mk("app", "in", J_, c.s("inlet")))


# ------------------------------------------------------------------ P20
def p20(c):
    R = upd(c)
    h0, sl = c.sp("h0"), c.sp("H_SL")
    stage, eta, depth = (at_cell(R, n) for n in ("stage", "eta", "depth"))
    inl = inlet_cell(c)
    c.equal("after an update the water surface is not below the sea level of the step", tmax(stage, sl), stage,
            R.last_store("stage"))
    F = c.run_method("finalize_timestep", override={"flooding_correction": lambda I, *a, **k: NONE}, key="ft")
    if F is not None:
        c.equal("finalizing raises only the surface below sea level, and to sea level", at_cell(F, "stage"),
                tmax(cell(c.s("stage"), IJ), sl), F.last_store("stage"))
        fs, fe, fd = (at_cell(F, n) for n in ("stage", "eta", "depth"))
        c.equal("finalizing gives depth as surface minus bed, or zero, outside the inlet", sel(inl, ZERO, fd), sel(inl, ZERO, tmax(ZERO, sub(fs, fe))),
                F.last_store("depth"))
        c.equal("finalizing gives inlet cells the inlet depth", sel(inl, fd, ZERO), sel(inl, h0, ZERO), F.last_store("depth"), facts=[("p", h0, 1)])
        c.equal("finalizing puts the inlet bed the inlet depth below the surface", sel(inl, fe, ZERO), sel(inl, sub(fs, h0), ZERO), F.last_store("eta"))
        c.equal("finalizing leaves the bed outside the inlet alone", sel(inl, ZERO, fe), sel(inl, ZERO, cell(c.s("eta"), IJ)), F.last_store("eta"))
    c.equal("after an update depth is surface minus bed, or zero, outside the inlet",
            sel(inl, ZERO, depth), sel(inl, ZERO, tmax(ZERO, sub(stage, eta))), R.last_store("depth"))
    c.equal("after an update inlet cells have the inlet depth", sel(inl, depth, ZERO), sel(inl, h0, ZERO), R.last_store("depth"),
            facts=[("p", h0, 1)])
    c.equal("after an update the inlet bed lies the inlet depth below the surface", sel(inl, eta, ZERO),
            sel(inl, sub(stage, h0), ZERO), R.last_store("eta"))
    # within the water iterations
    W = c.run_method("finalize_water_iteration", args=[sym("iteration", "s")], key="fwi")
    stage, eta, depth = (at_cell(W, n) for n in ("stage", "eta", "depth"))
    c.equal("after a water iteration the water surface is not below sea level", stage,
            tmax(cell(c.s("stage"), IJ), sl), W.last_store("stage"))
    c.equal("after a water iteration depth is surface minus bed, or zero", depth, tmax(ZERO, sub(stage, eta)),
            W.last_store("depth"))
    if W.field("eta") is c.s("eta"):
        c.ok("a water iteration leaves the bed alone", W.where)
    else:
        c.bad("a water iteration leaves the bed alone", W.last_store("eta"), "bed elevation is written")
    # within the parcel steps
    for which in ("sand", "mud"):
        S = steps(c, which)
        if not S.ok:
            c.unk("%s parcels" % which, "", "routing loop not found")
            continue
        for st in ends(S.L):
            ps = written(S.next("eta", st), S.phi("eta"))
            if not ps or len(ps) != 1:
                c.unk("%s parcel step: cell" % which, S.where)
                continue
            p = ps[0]
            ab = {p.args[0]: sym("$row", "s"), p.args[1]: sym("$col", "s")} if p.op == "tuple" else {}
            e1 = idx(S.next("eta", st), p)
            eab = {e1: sym("$eta", "s")}
            d1 = subst(subst(idx(S.next("depth", st), p), eab), ab)
            st0 = subst(idx(S.R.field("stage"), p), ab)
            want = tmax(ZERO, sub(st0, sym("$eta", "s")))
            nm = "%s parcel step keeps depth consistent with the bed" % which
            # what the step leaves as it was is consistent with the bed as it was
            d0, e0 = subst(idx(S.phi("depth"), p), ab), subst(idx(S.phi("eta"), p), ab)
            dh = subst(d1, {d0: tmax(ZERO, sub(st0, e0))})
            if dh is not d1:
                full = subst(idx(S.next("eta", st), p), ab)
                dh = subst(dh, {sym("$eta", "s"): full})
                z = lambda t: subst(t, {d0: tmax(ZERO, sub(st0, e0))})
                c.equal(nm, z(dh), z(subst(want, {sym("$eta", "s"): full})), S.where)
            else:
                c.equal(nm, d1, want, S.where)
            wr = written(S.next("depth", st), S.phi("depth"))
            if wr is None or any(norm(q) is not norm(p) for q in wr):
                c.bad("%s parcel step changes depth only where the bed changed" % which, S.where,
                      "depth written at %s" % [show(q)[:80] for q in wr or ()])
            else:
                c.ok("%s parcel step changes depth only where the bed changed" % which, S.where)
    # initial domain
    D = c.run_method("create_domain")
    c.equal("a new domain has bed equal to surface minus depth", at_cell(D, "eta"),
            sub(at_cell(D, "stage"), at_cell(D, "depth")), D.last_store("eta"))


# ------------------------------------------------------------------ P21
def p21(c):
    W = c.run_method("finalize_water_iteration", args=[sym("iteration", "s")], key="fwi")
    q0 = c.s("qw0")
    inl = inlet_cell(c)
    qx, qy, qw = (at_cell(W, n) for n in ("qx", "qy", "qw"))
    c.equal("inlet cells carry the imposed unit discharge", sel(inl, qw, ZERO), sel(inl, q0, ZERO), W.last_store("qw"))
    c.equal("inlet discharge points downstream", sel(inl, qx, ZERO), sel(inl, q0, ZERO), W.last_store("qx"))
    c.equal("inlet discharge has no lateral component", sel(inl, qy, ZERO), ZERO, W.last_store("qy"))
    x, y = drop(qx, inl), drop(qy, inl)
    m = {x: sym("$qx", "s"), y: sym("$qy", "s")}
    c.equal("discharge magnitude is the norm of its components", subst(drop(qw, inl), m),
            power(add(power(m[x], C(2)), power(m[y], C(2))), C(Half)), W.last_store("qw"))
    depth = at_cell(W, "depth")
    m = {}
    for t, n in ((qx, "$qx"), (qy, "$qy"), (qw, "$qw"), (depth, "$depth")):
        m[t] = sym(n, "s")
    vel(c, W, "after a water iteration", subst(at_cell(W, "uw"), m), subst(at_cell(W, "ux"), m), subst(at_cell(W, "uy"), m),
        m[qw], m[qx], m[qy], and_(lt(c.s("dry_depth"), m[depth]), lt(ZERO, m[qw])), m[depth], c.s("u_max"), ZERO)
    for which in ("sand", "mud"):
        S = steps(c, which)
        if not S.ok:
            c.unk("%s parcels" % which, "", "routing loop not found")
            continue
        for st in ends(S.L):
            ps = written(S.next("depth", st), S.phi("depth"))
            if not ps or len(ps) != 1:
                c.unk("%s parcel step: cell" % which, S.where)
                continue
            p = ps[0]
            ab = {p.args[0]: sym("$row", "s"), p.args[1]: sym("$col", "s")} if p.op == "tuple" else {}
            d1 = idx(S.next("depth", st), p)
            dd = sym("$depth", "s")

            def g(n):
                return subst(subst(idx(S.next(n, st), p), {d1: dd}), ab)
            q = subst(idx(S.R.field("qw"), p), ab)
            u = g("uw")
            um = c.s("u_max")
            u0 = subst(idx(S.phi("uw"), p), ab)
            want = sel(lt(ZERO, dd), tmin(um, div(q, dd)), u0)
            d0 = subst(idx(S.phi("depth"), p), ab)
            old = u
            if d0 in subterms(u):     # depth before the step agrees with the bed before the step
                st0, e0 = (subst(idx(x, p), ab) for x in (S.R.field("stage"), S.phi("eta")))
                inv = {d0: tmax(ZERO, sub(st0, e0)), dd: tmax(ZERO, sub(st0, add(e0, sym("$change", "s"))))}
                old, want = subst(u, inv), subst(want, inv)
            c.equal("%s parcel step: speed is discharge over depth, limited" % which, old, want, S.where)
            for n, b in (("ux", "qx"), ("uy", "qy")):
                comp = subst(idx(S.R.field(b), p), ab)
                c.equal("%s parcel step: %s follows the discharge" % (which, n), subst(g(n), {u: sym("$u", "s")}),
                        sel(lt(ZERO, q), div(mul(sym("$u", "s"), comp), q), ZERO), S.where)
    U = upd(c)
    # nothing after the sediment routing changes velocity or discharge
    end = [e.seq for e in U.events if e.kind == "exitfn" and e.name == "route_sediment"]
    if end:
        for n in ("uw", "ux", "uy", "qw", "qx", "qy"):
            v = U.raw(n)
            late = [e for e in U.events if e.seq > end[-1] and ((e.kind == "setattr" and e.name == n) or (
                e.kind == "store" and isinstance(v, Ref) and isinstance(e.data[0], Ref) and e.data[0].id == v.id))]
            if late:
                c.bad("'%s' is final after the sediment routing" % n, at(late[0]), "written again")
            else:
                c.ok("'%s' is final after the sediment routing" % n, U.where)


Half = Fraction(1, 2)


def drop(t, cond):
    """value where the condition does not hold"""
    return subst(t, {a: FALSE for a in (cond.args if cond.op == "and" else (cond,)) if a.op == "app"})


def vel(c, R, what, uw, ux, uy, qw, qx, qy, mask, depth, umax, dry):
    u = tmin(umax, div(qw, depth))
    c.equal("%s speed is discharge over depth, limited, and zero elsewhere" % what, uw, sel(mask, u, dry), R.last_store("uw"))
    for n, a, b in (("ux", ux, qx), ("uy", uy, qy)):
        c.equal("%s %s has the direction of the discharge" % (what, n), a, sel(mask, div(mul(u, b), qw), ZERO), R.last_store(n))


# ------------------------------------------------------------------ P24
def p24(c):
    R = c.run_method("apply_subsidence")
    e0 = cell(c.s("eta"), IJ)
    sg = cell(c.s("sigma"), IJ)
    on = and_(truth(c.sp("toggle_subsidence")), le(c.sp("start_subsidence"), c.sp("time")))
    c.equal("subsidence lowers the bed exactly when enabled and started", at_cell(R, "eta"), sel(on, sub(e0, sg), e0),
            R.last_store("eta"))
    for n in ("stage", "depth", "uw", "qw", "sand_frac", "_H_SL"):
        if R.field(n) is c.s(n):
            c.ok("subsidence leaves '%s' alone" % n, R.where)
        else:
            c.bad("subsidence leaves '%s' alone" % n, R.last_store(n), "written")
    U = upd(c)
    es = [e for e in U.events if e.kind == "enterfn" and e.name == "apply_subsidence"]
    fin = truth(c.s("_is_finalized"))
    if not es:
        c.unk("every update applies subsidence", U.where, "apply_subsidence is not called by update")
    else:
        c.implied("every update applies subsidence", not_(fin), or_(*[and_(*U.guards(e)) for e in es]), at(es[0]), why="skipped")
        (c.ok if len(es) == 1 and not es[0].loops else c.bad)("an update applies subsidence once", at(es[-1]), "%d calls" % len(es))
    S = c.run_method("init_subsidence")
    tog = truth(c.sp("toggle_subsidence"))
    full = mul(c.sp("subsidence_rate"), c.sp("dt"))
    got = numeric(at_cell(S, "sigma"))
    c.equal("each timestep lowers the region by rate times timestep, and the region is all but the inlet channel rows", got,
            sel(lt(I_, c.s("L0")), ZERO, full), S.last_store("sigma"), facts=[("b", tog, True)])


def numeric(t):
    """booleans used as numbers become 0 and 1"""
    memo = {}

    def go(x, ctx):
        if not isinstance(x, T):
            return x
        k = (x, ctx)
        if k in memo:
            return memo[k]
        if ctx and is_bool(x):
            if x is TRUE:
                r = ONE
            elif x is FALSE:
                r = ZERO
            elif x.op == "sel":
                r = sel(go(x.args[0], False), go(x.args[1], True), go(x.args[2], True))
            else:
                r = sel(go(x, False), ONE, ZERO)
        elif x.op in ("add", "mul", "div", "pow", "min", "max", "abs"):
            r = rebuild(x.op, [go(a, True) for a in x.args])
        elif x.op == "sel":
            r = sel(go(x.args[0], False), go(x.args[1], ctx), go(x.args[2], ctx))
        else:
            r = x
        memo[k] = r
        return r
    return go(t, True)


# ------------------------------------------------------------------ P25
def p25(c):
    R = upd(c)
    c.equal("an update raises sea level by rate times timestep", R.prop("H_SL"),
            add(c.sp("H_SL"), mul(c.sp("SLR"), c.sp("dt"))), R.last_store("_H_SL"))
    R.precise("sea level is summed in full precision", "H_SL", R.last_store("_H_SL"))
    w = [e for e in R.events if e.kind == "setattr" and e.name == "_H_SL"]
    ends_ = [e.seq for e in R.events if e.kind == "exitfn" and e.name in ("route_water", "route_sediment")]
    if not w:
        c.bad("sea level is raised once per update", R.where, "never assigned")
    elif len(w) > 1 or w[0].loops:
        c.bad("sea level is raised once per update", at(w[-1]), "assigned more than once per update")
    else:
        c.ok("sea level is raised once per update", at(w[0]))
    if w and ends_:
        if w[0].seq < max(ends_):
            c.bad("sea level is raised after water and sediment are routed", at(w[0]), "assigned before routing is complete")
        else:
            c.ok("sea level is raised after water and sediment are routed", at(w[0]))
        sl = c.sp("H_SL")
        c.equal("surfaces of the step refer to the sea level before the rise", subst(at_cell(R, "stage"), {}),
                tmax(at_cell(R, "stage"), sl), R.last_store("stage"))
        new = R.prop("H_SL")
        for n in ("stage", "depth", "eta"):
            if new in R.closure([R.field(n)]) and norm(new) is not norm(sl):
                c.bad("'%s' of the step does not use the raised sea level" % n, R.last_store(n), "depends on the raised level")
            else:
                c.ok("'%s' of the step does not use the raised sea level" % n, R.last_store(n))
    for m in ("output_data", "output_checkpoint", "log_model_time", "finalize"):
        X = c.run_method(m)
        if X is None:
            continue
        k = [e for e in X.events if e.kind == "setattr" and e.name == "_H_SL"]
        if k:
            c.bad("%s leaves sea level alone" % m, at(k[0]))
        else:
            c.ok("%s leaves sea level alone" % m, X.where)


# ------------------------------------------------------------------ P26
def anys(t):
    return [x for x in subterms(t) if x.op == "app" and x.args[0] == "any"]


def equal_any(c, name, got, want, where):
    """pointwise comparison where the actual value may skip work when no cell satisfies a mask"""
    aa = list({a for a in anys(got)})
    if len(aa) > 4:
        return c.unk(name, where, "too many aggregate conditions")
    import itertools
    for combo in itertools.product((True, False), repeat=len(aa)):
        m, hyp = {}, []
        for a, v in zip(aa, combo):
            m[a] = TRUE if v else FALSE
            if not v:
                hyp.append(truth(cell(a.args[1], IJ)))
        g = cell(subst(got, m), IJ)
        h = or_(*hyp) if hyp else FALSE
        X = sym("$X", "s")
        try:
            r = decide_equal(sel(h, X, g), sel(h, X, want))
        except (Undecided, RecursionError) as e:
            return c.unk(name, where, "undecided: %s" % e)
        if r is not None:
            op = opaque(sel(h, X, g), sel(h, X, want))
            if op:
                return c.unk(name, where, "uninterpreted parts")
            return c.bad(name, where, "value is %s, required %s%s" % (show(r[1])[:200], show(r[2])[:200], case_text(r[0])))
    return c.ok(name, where)


def p26(c):
    R = c.run_method("compute_sand_frac")
    e, e0 = cell(c.s("eta"), IJ), cell(c.s("eta0"), IJ)
    th = c.sp("active_layer_thickness")
    ds, dm = cell(c.s("Vp_dep_sand"), IJ), cell(c.s("Vp_dep_mud"), IJ)
    al, sf = cell(c.s("active_layer"), IJ), cell(c.s("sand_frac"), IJ)
    agg = or_(lt(ZERO, ds), lt(C(Fraction("0.000001")), dm))
    mix = div(ds, add(ds, dm))
    bot = sub(e0, th)
    want = sel(agg, mix, sel(and_(lt(e, e0), le(bot, e)), al, sel(and_(lt(e, e0), lt(e, bot)), c.s("_sand_frac_bc"), sf)))
    got = R.field("sand_frac")
    # thickness is non-negative (validated on assignment)
    equal_any2(c, "surface sand fraction follows erosion and deposition", got, want, R.last_store("sand_frac"), [("p", th, 1), ("p", th, 0)])
    equal_any2(c, "active layer takes the fraction of new deposits", R.field("active_layer"), sel(agg, mix, al),
               R.last_store("active_layer"), [None])
    for n in ("eta", "Vp_dep_sand", "Vp_dep_mud", "stage", "depth"):
        if R.field(n) is c.s(n):
            c.ok("composition update leaves '%s' alone" % n, R.where)
        else:
            c.bad("composition update leaves '%s' alone" % n, R.last_store(n), "written")
    U = upd(c)
    # the reference surface is the bed at the start of the update
    v = U.field("eta0")
    ob = "bed change is measured from the bed at the start of the update"
    a, b = U.raw("eta0"), U.raw("eta")
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        c.bad(ob, U.last_store("eta0"), "the reference surface is the bed array itself and moves with it")
    else:
        c.equal(ob, v, c.s("eta"), U.last_store("eta0"))
    for which in ("sand", "mud"):
        S = steps(c, which)
        if S.ok:
            through_steps(c, which, S, ("Vp_dep_sand", "Vp_dep_mud"))
    cleared(c)


def equal_any2(c, name, got, want, where, factsets):
    import itertools
    aa = list({a for a in anys(got)})
    if len(aa) > 4:
        return c.unk(name, where, "too many aggregate conditions")
    for fs in factsets:
        facts = [fs] if fs else []
        for combo in itertools.product((True, False), repeat=len(aa)):
            m, hyp = {}, []
            for a, v in zip(aa, combo):
                m[a] = TRUE if v else FALSE
                if not v:
                    hyp.append(truth(cell(a.args[1], IJ)))
            g = cell(subst(got, m), IJ)
            h = or_(*hyp) if hyp else FALSE
            X = sym("$X", "s")
            try:
                r = decide_equal(sel(h, X, g), sel(h, X, want), facts)
            except (Undecided, RecursionError) as e:
                return c.unk(name, where, "undecided: %s" % e)
            if r is not None:
                if opaque(sel(h, X, g), sel(h, X, want)):
                    return c.unk(name, where, "uninterpreted parts")
                return c.bad(name, where, "value is %s, required %s%s" % (show(r[1])[:200], show(r[2])[:200], case_text(r[0])))
    return c.ok(name, where)


# ------------------------------------------------------------------ P27
def p27(c):
    R = c.run_method("topo_diffusion")
    loc = loc_of(R, "eta")
    L = inner(R, loc) if loc else None
    if L is None:
        return c.unk("diffusion passes", R.where, "no loop changes the bed")
    w = "%s (%s)" % (L.where, R.fv.qual)
    n = c.s("N_crossdiff")
    lo = outermost(R, loc)
    it = lo.iter
    if isinstance(it, T) and it.op == "app" and it.args[0] == "range":
        c.equal("diffusion runs the configured number of passes", sub(it.args[2], it.args[1]), n, w)
        if lo.exits:
            c.bad("diffusion runs every pass", w, "the loop can stop early")
    else:
        c.unk("diffusion runs the configured number of passes", w, show(it)[:80] if isinstance(it, T) else "")
    rng = isinstance(it, T) and it.op == "app" and it.args[0] == "range"
    passes = (le(it.args[1], sym("$pass")), lt(sym("$pass"), it.args[2])) if rng else ()
    for st in ends(L):
        e0, e1 = L.phi[loc], R.I.loc_term(loc, st)
        qs = R.field("qs")
        k1, k2 = c.s("kernel1"), c.s("kernel2")

        def conv(x, k):
            return find_conv(e1, x, k)
        a, b, d = conv(e0, k1), conv(qs, k2), conv(mul(qs, e0), k2)
        if a is None or b is None or d is None:
            c.bad("diffusion uses the bed and flux neighbourhoods", w, "expected convolutions of bed, flux and their product not found") \
                if len(convs(e1)) == 3 else c.unk("diffusion uses the bed and flux neighbourhoods", w)
            continue
        g = cell(e1, IJ)
        x0, q = cell(e0, IJ), cell(qs, IJ)
        flux = mul(c.s("diffusion_multiplier"), add(sub(mul(q, cell(a, IJ)), mul(x0, cell(b, IJ))), cell(d, IJ)))
        land = eq(cell(c.s("cell_type"), IJ), C(-2))
        # the number of the pass is any of its values
        want = sel(or_(land, eq(I_, ZERO)), x0, add(x0, flux))
        el = mk("elem", lo.id, "i", "s")
        if rng and el in subterms(g):
            g = sel(and_(*passes), subst(g, {el: sym("$pass")}), want)
        c.equal("diffusion leaves land and the inlet row alone and moves the bed by the cross-diffusion flux elsewhere", g, want, w)
        modes = {kw for x in convs(e1) for kw in x.args if isinstance(kw, T) and kw.op == "kv"}
        bad = [x for x in convs(e1) if not any(isinstance(k, T) and "constant" in show(k) for k in x.args)]
        if bad:
            c.bad("nothing flows in across the domain boundary", w, "convolution not padded with zeros: " + show(bad[0])[:100])
        else:
            c.ok("nothing flows in across the domain boundary", w)
    from .config import inlet_relations
    inlet_relations(c, ("N_crossdiff", "diffusion_multiplier"))
    K = c.run_method("set_constants")
    for nm, want in (("kernel1", [1, 1, 1, 1, -8, 1, 1, 1, 1]), ("kernel2", [1, 1, 1, 1, 0, 1, 1, 1, 1])):
        from .config import table
        if K is None:
            c.unk(nm, "", "set_constants not found")
            continue
        t = table(K.field(nm))
        t = [num(x) if isinstance(x, T) else x for x in t] if t is not None else None
        t = None if t is None or None in t else t
        if t is None:
            c.unk("%s weighs the eight neighbours equally" % nm, K.last_store(nm), show(K.field(nm))[:80])
        elif t == want:
            c.ok("%s weighs the eight neighbours equally" % nm, K.last_store(nm))
        else:
            c.bad("%s weighs the eight neighbours equally" % nm, K.last_store(nm), "is %s" % (t,))
    for n_ in ("qs", "stage", "depth", "Vp_dep_sand", "Vp_dep_mud"):
        if R.field(n_) is c.s(n_):
            c.ok("diffusion leaves '%s' alone" % n_, R.where)
        else:
            c.bad("diffusion leaves '%s' alone" % n_, R.last_store(n_), "written")


def convs(t):
    return [x for x in subterms(t) if x.op == "aapp" and "convolve" in str(x.args[0])]


def find_conv(t, x, k):
    for y in convs(t):
        if norm(y.args[1]) is norm(x) and y.args[2] is k:
            return y
    return None


RULES = {
    "P18": {"fns": [p18], "min": 18, "level": "other",
            "explain": "Loop-body transition of the parcel loops of both routers, taken from the model's own call with its own "
                       "arguments: the cells written are enumerated and the balance dx^2*d(eta) + d(remaining volume) = 0 and the "
                       "deposit bookkeeping are decided by normal form and case split over every branch."},
    "P19": {"fns": [p19], "min": 4, "level": "other",
            "explain": "Equivalence (all branch cases) between the volume change computed in the parcel loop body and the documented "
                       "deposition/erosion law with the quarter-depth limiter; flux partition checked for all nine step directions."},
    "P20": {"fns": [p20], "min": 12, "level": "other",
            "explain": "Cell-wise value-flow terms of surface, bed and depth at the end of update, of a water iteration, of every "
                       "parcel step and of domain creation, compared with the required relations over all branch cases."},
    "P21": {"fns": [p21], "min": 16, "level": "other",
            "explain": "Cell-wise value-flow terms of discharge and velocity at the end of a water iteration and of every parcel step "
                       "compared with the required relations; effect rule after sediment routing."},
    "P24": {"fns": [p24], "min": 8, "level": "other",
            "explain": "Cell-wise equality of the bed after subsidence with the specified lowering for all toggles, times and cells, "
                       "and of the lowering field built at construction."},
    "P25": {"fns": [p25], "min": 8, "level": "other",
            "explain": "Normal-form equality of sea level after update, effect/order rule for every assignment of it, dependence rule for "
                       "the surfaces of the step."},
    "P26": {"fns": [p26], "min": 7, "level": "other",
            "explain": "Cell-wise equality over all erosion/deposition cases, eliminating whole-grid short-cuts by case analysis."},
    "P27": {"fns": [p27], "min": 7, "level": "other",
            "explain": "Loop-body transition of the diffusion passes, cell-wise equality with the specified flux on wet cells and "
                       "identity on land and the first row; pass count from the loop bound."},
}
