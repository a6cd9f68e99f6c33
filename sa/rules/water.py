"""Water routing: weights, parcel steps, flux bookkeeping, free surface."""
from ..core import *
from ..cells import cell, N
from ..nbhd import Hood, Sums, at as elem_at, elements, K, is_edge_pad, pad_base
from .physics import (steps, inner, outermost, loc_of, ends, written, step_terms, IJ, I_, J_, at_cell, abstract, inlet_cell,
                      numeric)

NB = sym
CTR = eq(K, C(4))


def nb(name, k=None):
    v = sym("nb." + name, "a")
    return v if k is None else mk("idx", v, k)


def covers(R, e, axis, shape_of):
    """the loop element e runs over all rows (axis 0) or columns (axis 1) of a grid"""
    if e.op != "elem" or e.args[0] not in R.I.loops:
        return None
    it = R.I.loops[e.args[0]].iter
    if not (isinstance(it, T) and it.op == "app" and it.args[0] == "range"):
        return None
    lo, hi, st = it.args[1:4]
    h = hi
    full = h.op == "idx" and num(h.args[1]) == axis and h.args[0].op in ("app", "shape") or \
        len(shape_of) > axis and h is shape_of[axis]
    return num(lo) == 0 and num(st) == 1 and full


# ------------------------------------------------------------------ P22
def water_spec(c, sm, row0=False):
    """weights of the nine choices at neighbour $k; sums over the neighbours named through sm"""
    D, CT, M, ST = (nb(n, K) for n in ("depth", "cell_type", "mod_water_weight", "stage"))
    dist = mk("idx", c.s("distances_flat"), K)
    dry, wall = lt(D, c.s("dry_depth")), eq(CT, C(-2))
    up = lt(K, C(3)) if row0 else FALSE
    qx, qy = nb("qx", C(4)), nb("qy", C(4))

    sm.totals = []

    def base(v, excl):
        return sel(or_(CTR, dry, wall, excl), ZERO, tmax(ZERO, div(v, dist)))
    out = []
    for excl in ((FALSE, up) if row0 else (FALSE,)):
        sfc = base(sub(nb("stage", C(4)), ST), excl)
        inr = base(add(mul(qx, mk("idx", c.s("jvec_flat"), K)), mul(qy, mk("idx", c.s("ivec_flat"), K))), excl)
        ss, si = sm.of(sfc), sm.of(inr)
        sfc = sel(lt(ZERO, ss), div(sfc, ss), sfc)
        inr = sel(lt(ZERO, si), div(inr, si), inr)
        g = c.s("gamma")
        w = sel(CTR, ZERO, mul(power(mul(D, M), c.sp("theta_water")), add(mul(g, sfc), mul(sub(ONE, g), inr))))
        sw = sm.of(w)
        sm.totals.append(sw)
        ok = and_(not_(dry), not_(wall), not_(CTR), not_(up))
        nw = sm.of(sel(ok, ONE, ZERO))
        notwall = and_(not_(wall), not_(excl))
        nn = sm.of(sel(notwall, ONE, ZERO))
        sm.nn = nn
        fb = sel(lt(ZERO, nw), sel(ok, div(ONE, nw), ZERO), sel(notwall, div(ONE, nn), ZERO))
        out.append(sel(lt(ZERO, sw), div(w, sw), sel(eq(nb("cell_type", C(4)), C(-2)), ZERO, fb)))
    return out


def p22(c):
    _p22_water(c)
    _p22_sed(c)
    _p22_pick(c)


def weights_of_water(c):
    """(run, loop, cell, weight vector) of the water weight computation"""
    R = c.run_method("get_water_weight_array")
    if R is None:
        return None
    f = R.field("water_weights")
    L = None
    for q in R.I.loops.values():
        for l, t in q.out.items():
            if t is f:
                L, loc = q, l
    if L is None:
        return None
    L = max((q for q in R.I.loops.values() if loc in q.phi), key=lambda q: len(q.outer))
    t, vec, cond = L.next[loc], None, TRUE
    base = L.phi[loc]
    while t.op == "sel" and base in (t.args[1], t.args[2]):
        cond = and_(cond, t.args[0] if t.args[2] is base else not_(t.args[0]))
        t = t.args[1] if t.args[2] is base else t.args[2]
    if t.op == "store" and t.args[0] is base and t.args[1].op == "tuple":
        p = t.args[1].args
        if len(p) == 2 or (len(p) == 3 and full_slice(p[2])):
            return R, L, p[:2], t.args[2], cond, (c.s("depth"),)
    return None


def grids(H, c, extra=()):
    for n in ("depth", "stage", "cell_type", "mod_water_weight", "mod_sed_weight", "qx", "qy", "qw") + tuple(extra):
        H.name(c.s(n), n)


def report(c, H, what, w):
    for p in dict.fromkeys(H.problems):
        c.bad("%s: neighbours are the nine cells around the cell" % what, w, p)
    for p in dict.fromkeys(H.unclear):
        c.unk("%s: neighbours are the nine cells around the cell" % what, w, p)
    if not H.problems and not H.unclear:
        c.ok("%s: neighbours are the nine cells around the cell" % what, w)


def _p22_water(c):
    W = weights_of_water(c)
    if W is None:
        return c.unk("water weights of every cell", "", "weight computation not recognised")
    R, L, p, V, cond, _ = W
    w = "%s (%s)" % (L.where, L.fn.qual if L.fn else "")
    cov = [covers(R, e, k, ()) for k, e in enumerate(p)]
    if None in cov:
        c.unk("water weights are computed for every cell", w, "loops not recognised")
    elif all(cov) and cond is TRUE:
        c.ok("water weights are computed for every cell", w)
    else:
        c.bad("water weights are computed for every cell", w, "cells are left out: %s" % (
            show(cond) if cond is not TRUE else [show(R.I.loops[e.args[0]].iter) for e in p]))
    H = Hood(p)
    grids(H, c)
    V = H.rewrite(V)
    report(c, H, "water weights", w)
    V = subst(V, {p[0]: I_, p[1]: J_})
    if H.problems or H.unclear:
        return
    dist = [("p", mk("idx", c.s("distances_flat"), K), 1)]
    for row0 in (False, True):
        more = [] if row0 else [("p", I_, 1)]
        sm = Sums(dist + more)
        want = water_spec(c, sm, row0)
        V1 = subst(V, {I_: ZERO}) if row0 else V
        V1 = elements(V1)
        got = elem_at(elements(sm.rewrite(V1)))
        name = "water weights in the upstream row follow the routing rule" if row0 else \
            "water weights follow the routing rule (zero to land, dry and self; depth power times slope and inertia; fallbacks)"
        per_choice(c, name, got, want, w, c.s("distances_flat"), more)
        if row0:
            continue
        # giving up: only with invalid numbers or where there is nowhere to go
        for e in R.events:
            if e.kind != "raise":
                continue
            g = and_(*[subst(H.rewrite(q), {p[0]: I_, p[1]: J_}) for q in e.pc])
            g = sm.rewrite(elements(g))
            bad = [x for x in subterms(g) if is_bool(x) and x.op == "app" and x.args[0] in ("any", "all") and
                   any(y.op in ("app", "aapp", "pw") and "isnan" in y.args for y in subterms(x))]
            nan = {x: sym("$nan%d" % k, "b") for k, x in enumerate(bad)}
            g, bad = subst(g, nan), list(nan.values())
            c.implied("routing of water gives up only on invalid numbers or without a cell to go to", and_(g, lt(ZERO, I_)),
                      or_(lt(sm.totals[0], ZERO), le(sm.nn, ZERO), *bad), "%s" % e.where, why="raised although there are cells to go to")


def per_choice(c, name, got, wants, w, dist, more=()):
    """compare at each of the nine choices; any one of the given rules may be followed"""
    facts = [("p", mk("idx", dist, C(k)), 1) for k in range(9)] + list(more)
    for x in wants[1:]:
        if all(_same(subst(got, {K: C(k)}), subst(x, {K: C(k)}), facts) for k in range(9)):
            return c.ok(name, w, "9 choices")
    for k in range(9):
        m = {K: C(k)}
        if not _same(subst(got, m), subst(wants[0], m), facts) or k == 8:
            return c.equal(name, subst(got, m), subst(wants[0], m), w, facts=facts, why="choice %d" % k)


def _same(a, b, facts):
    try:
        return decide_equal(a, b, facts) is None
    except Undecided:
        return False


def picked(t):
    """weights of a choice drawn by cumulative search: index(arange(len w), searchsorted(cumsum w, u)) or the search itself"""
    x = t
    if x.op == "idx" and x.args[0].op == "aapp" and x.args[0].args[0] == "arange":
        x = x.args[1]
    if x.op != "app" or x.args[0] != "searchsorted" or len(x.args) != 3:
        return None
    cs, u = x.args[1:]
    if not (cs.op == "aapp" and cs.args[0] == "cumsum" and len(cs.args) == 2):
        return None
    if not (u.op == "ext" and "uniform" in str(u.args[1]) and len(u.args) == 4 and num(u.args[2]) == 0):
        return None
    hi = u.args[3]
    if not (hi is mk("idx", cs, C(-1)) or hi is idx(cs, C(-1)) or norm(hi) is norm(idx(cs, C(-1)))):
        return None
    return cs.args[1]


def mirrors(S):
    """padded grids carried by the parcel loop that stay equal to the padded depth: phi term -> depth, and what fails"""
    R, L = S.R, S.L
    ld = loc_of(R, "depth")
    out, bad, und = {}, [], []
    for l, ph in L.phi.items():
        if l == ld or not is_array(ph):
            continue
        chain = [R.I.loops[q] for q in L.outer if q in R.I.loops and l in R.I.loops[q].phi] + [L]
        P = chain[0].init.get(l)
        if P is None or (P.op != "store" and not (P.op == "aapp" and P.args[0] == "pad")) or pad_base(P) is None:
            continue
        base = pad_base(P)
        dchain = [q for q in chain if ld in q.phi]
        if len(dchain) != len(chain) or base is not chain[0].init.get(ld):
            und.append("padded grid %s is not made from depth" % show(ph))
            continue
        e = is_edge_pad(P, base)
        if e is not None:
            (und if e == "undecided" else bad).append("the padded depth is not the depth with its edge repeated: %s" % e)
            continue
        link = all(b.init.get(k) is a.phi[k] and a.next.get(k) is b.out.get(k) for a, b in zip(chain, chain[1:]) for k in (l, ld))
        if not link:
            und.append("depth is also changed between parcels")
            continue
        good = True
        for st in ends(L):
            d1, P1 = R.I.loc_term(ld, st), R.I.loc_term(l, st)
            wd, wp = written(d1, L.phi[ld]), written(P1, ph)
            if wd is None or wp is None or len(wd) != 1 or wd[0].op != "tuple":
                und.append("depth updates of a parcel step not recognised")
                good = False
                continue
            q = mk("tuple", *[norm(add(a, ONE)) for a in wd[0].args])
            if len(wp) != 1 or wp[0].op != "tuple" or mk("tuple", *[norm(a) for a in wp[0].args]) is not q:
                bad.append("a parcel step changes depth at %s but the routing copy at %s" % (
                    show(wd[0])[:60], [show(x)[:60] for x in wp]))
                good = False
                continue
            if not _same(idx(P1, wp[0]), idx(d1, wd[0]), []):
                bad.append("the routing copy of depth gets another value than depth")
                good = False
        if good:
            out[ph] = L.phi[ld]
    return out, bad, und


def sed_spec(c, sm, theta, row0):
    D, CT, M = (nb(n, K) for n in ("depth", "cell_type", "mod_sed_weight"))
    dist = mk("idx", c.s("distances_flat"), K)
    dry, wall = le(D, c.s("dry_depth")), eq(CT, C(-2))
    qx, qy = nb("qx", C(4)), nb("qy", C(4))
    inr = tmax(ZERO, div(add(mul(qx, mk("idx", c.s("jvec_flat"), K)), mul(qy, mk("idx", c.s("ivec_flat"), K))), dist))
    out = []
    for excl in ((lt(K, C(3)), FALSE) if row0 else (FALSE,)):
        w = sel(or_(CTR, dry, wall, excl), ZERO, mul(power(mul(D, M), theta), inr))
        s = sm.of(w)
        f = sel(or_(CTR, wall, excl), ZERO, div(ONE, dist))
        t = sel(eq(s, ZERO), f, w)
        out.append(div(t, sel(eq(s, ZERO), sm.of(f), s)))
    return out


def sed_weights(c, which):
    """(step, weight vector, cell the parcel is in) of one sediment parcel step"""
    S = steps(c, which)
    if not S.ok:
        return None
    for st in ends(S.L):
        ps = written(S.next("eta", st), S.phi("eta"))
        if not ps or len(ps) != 1 or ps[0].op != "tuple":
            return None
        p = ps[0]
        ts = step_terms(p)
        ks = {x.args[1] for x in ts}
        if len(ks) != 1:
            return None
        k = ks.pop()
        wv = picked(k)
        if wv is None:
            return None
        z = {x: ZERO for x in ts}
        here = tuple(norm(subst(a, z)) for a in p.args)
        row = [x for x in ts if x.args[0] is c.s("jwalk_flat") and x in subterms(p.args[0])]
        col = [x for x in ts if x.args[0] is c.s("iwalk_flat") and x in subterms(p.args[1])]
        return S, wv, here, k, bool(row) and bool(col)
    return None


def _p22_sed(c):
    for which in ("sand", "mud"):
        W = sed_weights(c, which)
        if W is None:
            c.unk("%s routing weights" % which, "", "choice of direction not recognised")
            continue
        S, V, here, k, straight = W
        w = S.where
        al, bad, und = mirrors(S)
        for b in bad:
            c.bad("%s parcels are routed by the current depth" % which, w, b)
        ld = loc_of(S.R, "depth")
        if ld in S.L.phi and c.s("depth") in subterms(V) and not bad:
            bad = ["the weights use the depth from before any parcel moved sediment"]
            c.bad("%s parcels are routed by the current depth" % which, w, bad[0])
        for b in und:
            c.unk("%s parcels are routed by the current depth" % which, w, b)
        if not bad and not und:
            c.ok("%s parcels are routed by the current depth" % which, w)
        H = Hood(here, al)
        grids(H, c)
        H.name(S.phi("depth"), "depth")
        V = H.rewrite(V)
        report(c, H, "%s weights" % which, w)
        if H.problems or H.unclear or bad:
            continue
        V = subst(V, {here[0]: I_, here[1]: J_})
        dist = [("p", mk("idx", c.s("distances_flat"), K), 1)]
        for row0 in (False, True):
            more = [] if row0 else [("p", I_, 1)]
            sm = Sums(dist + more)
            want = sed_spec(c, sm, c.sp("theta_%s" % which), row0)
            V1 = elements(subst(V, {I_: ZERO}) if row0 else V)
            got = elem_at(elements(sm.rewrite(V1)))
            name = "%s weights in the upstream row follow the routing rule" % which if row0 else \
                "%s weights follow the routing rule (zero to land, dry and self; depth power times inertia; inverse distance fallback)" % which
            per_choice(c, name, got, want, w, c.s("distances_flat"), more)
        if straight:
            c.ok("%s parcels move to the neighbour that was drawn" % which, w)
        else:
            c.bad("%s parcels move to the neighbour that was drawn" % which, w, "row and column steps are not those of the drawn neighbour")


# ------------------------------------------------------------------ water parcels, one at a time
P_ = sym("$p", "s")


class Parcel:
    """per-parcel view of the arrays of the water routing loop: element $p of each of them"""

    def __init__(self, R):
        self.R = R
        self.loops = R.I.loops
        self.byout = {}
        for L in self.loops.values():
            for l, t in L.out.items():
                self.byout[t] = (L, l)
        self.memo = {}

    def scatter(self, t):
        """loop whose result t is, if it is an element-by-element map; (loop, location)"""
        return self.byout.get(t)

    def at(self, t, p=P_):
        k = (t, p)
        if k not in self.memo:
            self.memo[k] = self._at(t, p)
        return self.memo[k]

    def _at(self, t, p):
        if not isinstance(t, T) or not is_array(t):
            return t
        if t.op in TM.POINTWISE or t.op == "truth":
            return rebuild_(t.op, [self.at(a, p) if isinstance(a, T) else a for a in t.args])
        if t.op == "lout" and t in self.byout:
            v = self.mapped(t, p)
            if v is not None:
                return v
        if t.op == "idx":
            b, i = t.args
            if i.op == "flat" and is_array(i.args[0]):
                return mk("idx", b, mk("flat", self.at(i.args[0], p)))
            if is_array(i) and not is_bool(i) and i.op not in ("tuple", "slice"):
                return idx(b, self.at(i, p))
            if is_array(i) and is_bool(i):
                return self.at(b, p)       # a selection keeps the elements of the selected parcels
        return mk("idx", t, p)

    def mapped(self, t, p):
        L, l = self.byout[t]
        ph, nx = L.phi[l], L.next.get(l)
        if nx is None or L.exits:
            return None
        ws = written(nx, ph)
        e = [x for x in subterms(nx) if x.op == "elem" and x.args[0] == L.id]
        if not ws or len(ws) != 1 or len(e) != 1 or norm(ws[0]) is not e[0]:
            return None
        part = TRUE
        if not self.full(L):
            part = self.part(L, p)
            if part is None:
                return None
        v = idx(nx, e[0])
        own = idx(ph, e[0])
        m = {own: sym("$own.%s" % (l,), "s")}
        back = {m[own]: (l, L.init[l])}
        for l2, ph2 in L.phi.items():
            if l2 != l and is_array(ph2) and ph2 in subterms(v) and L.next.get(l2) is not None:
                w2 = written(L.next[l2], ph2)
                if w2 and len(w2) == 1 and norm(w2[0]) is e[0]:
                    o = idx(ph2, e[0])
                    m[o] = sym("$own.%s" % (l2,), "s")
                    back[m[o]] = (l2, L.init[l2])
        v = subst(v, m)
        if any(x in subterms(v) for x in L.phi.values() if is_array(x)):
            return None
        v = subst(v, {e[0]: p})
        v = self.elems(v, p)
        v = subst(v, {k: self.at(x[1], p) for k, x in back.items()})
        return v if part is TRUE else sel(part, v, self.at(L.init[l], p))

    def part(self, L, p):
        """condition that parcel p is among those a loop over some of the parcels visits"""
        it = L.iter
        if not isinstance(it, T) or it.op not in ("app", "aapp") or it.args[0] not in ("range", "arange"):
            return None
        a = it.args[1:]
        if len(a) < 2 or num(a[0]) is None or num(a[0]) < 0 or len(a) > 2 and num(a[2]) != 1:
            return None
        ls = [x for x in subterms(a[1]) if x.op == "idx" and num(x.args[1]) == 0 and x.args[0].op in ("app", "shape") or
              x.op == "app" and x.args[0] == "len"]
        ls = [x for x in ls if not any(x is not y and x in subterms(y) for y in ls)]
        if len(ls) != 1:
            return None
        k = num(norm(sub(a[1], ls[0])))
        if k is None:
            return None
        return and_(TRUE if num(a[0]) == 0 else le(a[0], p), TRUE if k >= 0 else lt(p, add(sym("$np", "s"), C(k))))

    def full(self, L):
        it = L.iter
        if not isinstance(it, T):
            return False
        if it.op in ("app", "aapp") and it.args[0] in ("range", "arange"):
            a = it.args[1:]
            if len(a) >= 2 and num(a[0]) == 0 and (len(a) < 3 or num(a[2]) == 1):
                h = a[1]
                return h.op == "idx" and num(h.args[1]) == 0 and h.args[0].op in ("app", "shape") or \
                    h.op == "app" and h.args[0] == "len"
            return False
        return is_array(it) or it.op == "idx" and is_bool(it.args[1]) and it.args[1].op not in ("tuple",)

    def elems(self, v, p):
        """elements of per-parcel arrays inside a scalar term"""
        m = {}
        for x in subterms(v):
            if x.op == "idx" and x.args[1] is p and is_array(x.args[0]) and x.args[0].op not in ("sym", "phi"):
                m[x] = self.at(x.args[0], p)
        return subst(v, m) if m else v


def rebuild_(op, args):
    return TM.rebuild(op, args)


class WaterLoop:
    def __init__(self, c):
        self.ok = False
        self.R = R = c.run_method("run_water_iteration")
        if R is None:
            return
        lq = [l for L in R.I.loops.values() for l in L.phi if l[0] == "f" and l[-1] == "free_surf_walk_inds"]
        Ls = [L for L in R.I.loops.values() if any(l[0] == "f" and l[-1] == "free_surf_walk_inds" or l == loc_of(R, "free_surf_walk_inds")
                                                   for l in L.phi) and not L.outer]
        if len(Ls) != 1:
            return
        self.L = L = Ls[0]
        self.P = Parcel(R)
        self.where = "%s (%s)" % (L.where, L.fn.qual if L.fn else "")
        self.lwalk = lq[0] if lq else loc_of(R, "free_surf_walk_inds")
        # the parcels' cells: the array whose sum keeps the loop going
        self.cur = None
        for x in subterms(L.cond):
            if x.op in ("app", "aapp") and x.args[0] in ("sum", "any", "max", "amax", "mean", "count_nonzero") and len(x.args) == 2:
                q = [y for y in subterms(x.args[1]) if y.op == "phi" and is_array(y)]
                if len(q) == 1 and not self.cur:
                    self.cur = q[0]
            if x.op in ("app", "aapp") and x.args[0] in ("sum", "any") and x.args[1].op in ("phi",) and is_array(x.args[1]):
                self.cur = x.args[1]
            if x.op in ("app", "aapp") and x.args[0] == "any" and x.args[1].op in ("lt", "not") and not self.cur:
                q = [y for y in subterms(x.args[1]) if y.op == "phi" and is_array(y)]
                if len(q) == 1:
                    self.cur = q[0]
        if self.cur is None:
            return
        self.lcur = [l for l, t in L.phi.items() if t is self.cur][0]
        self.c0 = mk("idx", self.cur, P_)
        self.ok = True

    def next(self, loc):
        return self.R.I.loc_term(loc, self.L.end)


# ------------------------------------------------------------------ one step of a water parcel
X_, REP, V_ = sym("$X", "s"), sym("$rep", "b"), sym("$V", "s")


class Step:
    """the transition of one parcel $p in one pass of the water loop"""

    def __init__(self, c, W):
        self.c, self.W = c, W
        self.why = None
        P, R = W.P, W.R
        self.cur = P.at(W.next(W.lcur))
        self.m = {}
        ps = [x for x in subterms(self.cur) if picked(x) is not None]
        ps = [x for x in ps if not any(x is not y and x in subterms(y) for y in ps)]
        if len(ps) != 1:
            self.why = "choice of the next direction not recognised"
            return
        self.X = ps[0]
        self.m[self.X] = X_
        self.rep, self.repw = None, None
        cand = [x for x in subterms(self.cur) if self._member(x) is not None]
        cand = [x for x in cand if not any(x is not y and x in subterms(y) for y in cand)]
        if len(cand) > 1:
            self.why = "more than one repeat test"
            return
        if cand:
            self.rep = self._member(cand[0])
            self.m[cand[0]] = REP
        self.step = None
        for l, ph in W.L.phi.items():
            if l[0] == "e" and not is_array(ph) and norm(sub(W.next(l), ph)) is ONE and num(norm(W.L.init.get(l, NONE))) is not None:
                if self.step is None or ph in subterms(W.L.cond):
                    self.step, self.lstep = ph, l
        if self.step is None:
            self.why = "no step counter in the loop condition"
            return
        self.cur = self.view(self.cur)
        vs = {x.args[1].args[0] for x in subterms(self.cur) if x.op == "idx" and x.args[0] is c.s("cell_type") and x.args[1].op == "flat"}
        vs = {v for v in vs if not any(v in subterms(u) for u in vs if u is not v)}
        if len(vs) != 1:
            self.why = "test for the domain edge not recognised"
            return
        self.V = vs.pop()

    def view(self, t):
        return gridshape(self.c, subst(t, self.m))

    def _member(self, t):
        """(array, value) when t says that value occurs in array"""
        if t.op == "lout" and t in self.W.P.byout:
            L, l = self.W.P.byout[t]
            if L.init.get(l) is not FALSE or L.iter is None:
                return None
            if L.exits:
                if L.next.get(l) is not L.phi.get(l) or len(L.exits) != 1:
                    return None
                q = L.exits[0]
                if self.W.R.I.loc_term(l, q) is not TRUE:
                    return None
                pc = [p for p in q.pc if p not in L.body_pc]
                cond = and_(*pc)
            else:
                n = L.next.get(l)
                if n is None:
                    return None
                if n.op == "or" and L.phi[l] in n.args:
                    cond = or_(*[a for a in n.args if a is not L.phi[l]])
                elif n.op == "sel" and n.args[1] is TRUE and n.args[2] is L.phi[l]:
                    cond = n.args[0]
                else:
                    return None
            if L.phi.get(l) is not None and L.phi[l] in subterms(cond):
                cond = subst(cond, {L.phi[l]: FALSE})
            it = L.iter
            if not is_array(it):
                return None
            e = mk("idx", it, mk("elem", L.id, "i", "s"))
            es = [x for x in subterms(cond) if x.op == "idx" and x.args[1].op == "elem" and x.args[1].args[0] == L.id]
            w = sym("$w", "s")
            cond = subst(cond, {x: w for x in es if not any(x is not y and x in subterms(y) for y in es)})
            el = [x for x in subterms(cond) if x.op == "elem" and x.args[0] == L.id]
            if el and w not in subterms(cond):
                cond = subst(cond, {el[0]: w})
            return it, cond
        if t.op in ("app", "aapp") and t.args[0] == "any" and len(t.args) == 2 and t.args[1].op in ("eq",) and is_array(t.args[1]):
            a, b = t.args[1].args
            if is_array(b):
                a, b = b, a
            if is_array(a) and not is_array(b):
                return a, eq(sym("$w", "s"), b)
        return None

    def exists(self):
        """predicate of one element $w of the parcel's walk that makes the repeat test true; also the walk"""
        t, cond = self.rep
        w = sym("$w", "s")
        # growing the record by empty columns adds no visited cell
        m = {x: x.args[1].args[0] for x in subterms(t) if x.op == "aapp" and x.args[0] in ("hstack", "concatenate") and
             len(x.args) >= 2 and x.args[1].op in ("tuple", "list") and len(x.args[1].args) == 2 and x.args[1].args[1] is ZERO}
        t = subst(t, m)
        pred = cond
        for _ in range(4):
            if t.op == "idx" and is_bool(t.args[1]) and is_array(t.args[1]):
                pred = and_(pred, subst(t.args[1], {t.args[0]: w}))
                t = t.args[0]
        return pred, t


def water_step(c):
    k = "water_step"
    if k not in c.cache:
        W = WaterLoop(c)
        c.cache[k] = Step(c, W) if W.ok else None
    return c.cache[k]


def new0(c, cur, X):
    return sel(or_(eq(cur, ZERO), eq(X, C(4))), ZERO, add(cur, mk("idx", c.s("ravel_walk_flat"), X)))


def _p22_pick(c):
    S = water_step(c)
    if S is None or S.why:
        return c.unk("water parcels draw their direction from the weights of their cell", "", S.why if S else "loop not recognised")
    row = picked(S.X)
    W = S.W
    want = mk("idx", W.R.field("water_weights"), ZERO)
    base = None
    if row.op == "idx":
        b, i = row.args
        if i.op == "tuple" and len(i.args) == 2 and full_slice(i.args[1]):
            i = i.args[0]
        if b.op == "aapp" and b.args[0] == "reshape":
            d = b.args[2:]
            if len(d) == 1 and d[0].op == "tuple":
                d = d[0].args
            if len(d) == 2 and num(d[1]) == 9:
                base = b.args[1]
    if base is None:
        return c.unk("water parcels draw their direction from the weights of their cell", W.where, show(row)[:80])
    if base is not W.R.field("water_weights"):
        c.unk("water parcels draw their direction from the weights of their cell", W.where, show(base)[:80])
    else:
        c.equal("water parcels draw their direction from the weights of their cell", i, W.c0, W.where)


# ------------------------------------------------------------------ P30
NW = sym("$n", "s")


def p30(c):
    S = water_step(c)
    if S is None or S.why:
        return c.unk("steps of water parcels", "", S.why if S else "loop not recognised")
    W, R = S.W, S.W.R
    w = W.where
    L = W.L
    goes_on = and_(L.cond, *[q for q in L.end.pc if q not in L.body_pc and S.step in subterms(q)])
    plainly(c, "water parcels take a bounded number of steps", goes_on, lt(S.step, c.sp("stepmax")), w, "the loop goes on at the step limit")
    c.equal("the step count starts at zero", L.init[S.lstep], ZERO, w)
    _p30_all(c, S, goes_on, w)
    _p30_moves(c, S, w)
    J = c.run_method("init_water_iteration")
    if J is not None:
        q = sym("$q", "s")
        c.equal("every iteration starts with no parcel flagged", cell(J.field("free_surf_flag"), (P_,), (sym("$np", "s"),)), ONE,
                J.last_store("free_surf_flag"))
        c.equal("every iteration starts with empty walks", cell(J.field("free_surf_walk_inds"), (P_, q)), ZERO,
                J.last_store("free_surf_walk_inds"))
    _p30_sed(c)
    _p30_row0(c)


def _p30_all(c, S, goes_on, w):
    """routing does not end before every parcel has stopped or taken all its steps"""
    name = "routing goes on while a parcel is still moving and has steps left"
    one, some = sym("$cell", "s"), sym("$moving", "s")
    hyp, m = [le(ONE, some), lt(S.step, c.sp("stepmax"))], {}
    for x in sorted(subterms(goes_on), key=lambda x: x.id):
        if not (x.op in ("app", "aapp") and len(x.args) == 2 and isinstance(x.args[1], T) and S.W.cur in subterms(x.args[1])):
            continue
        a = x.args[1]
        pred = a if a is S.W.cur or is_bool(a) else None
        if pred is None or x.args[0] not in ("sum", "any", "max", "amax", "mean", "count_nonzero") or is_array(x):
            return c.unk(name, w, show(x)[:80])
        if pred is S.W.cur:
            covers = True
        else:
            p = subst(pred, {S.W.cur: one})
            p = subst(p, {mk("truth", one): not_(eq(one, ZERO))})
            if is_array(p):
                return c.unk(name, w, show(x)[:80])
            try:
                covers = implies(le(ONE, one), p) is None
            except (Undecided, RecursionError):
                return c.unk(name, w, show(x)[:80])
        if x.args[0] == "any":
            m[x] = le(ONE, some) if covers else sym("$some%d" % len(m), "b")
        else:
            m[x] = n = sym("$n%d" % len(m), "s")
            if covers:
                hyp.append(lt(ZERO, n) if x.args[0] == "mean" else le(ONE, n))
    if not m:
        return c.unk(name, w, "no test for parcels still moving")
    t = subst(goes_on, m)
    mm = {x: sym("$" + str(x.args[1]), "b" if is_bool(x) else "s") for x in subterms(t) if x.op == "phi" and not is_array(x)}
    if any(x.op in ("app", "aapp", "ext", "unk") or is_array(x) for x in subterms(t) if x.op != "sym"):
        return c.unk(name, w, show(t)[:80])
    c.implied(name, subst(and_(*hyp), mm), subst(t, mm), w, why="parcels still moving are left where they are")


def ct_at(c, v):
    return mk("idx", c.s("cell_type"), mk("flat", v))


def returning(c, S):
    """view of a term for a parcel that moves, past the first steps, to a cell $n it visited before"""
    far = norm(lt(c.s("L0"), add(S.step, ONE)))

    def f(t):
        t = subst(S.view(t), {REP: TRUE})
        t = norm(t)
        t = norm(subst(t, {norm(eq(S.W.c0, ZERO)): FALSE, norm(eq(X_, C(4))): FALSE, far: TRUE, norm(not_(far)): FALSE}))
        t = norm(subst(t, {S.W.c0: sub(NW, mk("idx", c.s("ravel_walk_flat"), X_))}))
        return norm(subst(t, {norm(lt(ZERO, NW)): TRUE, norm(le(NW, ZERO)): FALSE, norm(eq(NW, ZERO)): FALSE, norm(lt(NW, ZERO)): FALSE}))
    return f


def _p30_moves(c, S, w):
    W, R, L = S.W, S.W.R, S.W.L
    n0 = new0(c, W.c0, X_)
    far = lt(c.s("L0"), add(S.step, ONE))
    moved = and_(far, lt(ZERO, n0))
    ret = returning(c, S)
    t0, V0 = subst(S.cur, {REP: FALSE}), subst(S.V, {REP: FALSE})
    t1, V1 = subst(S.cur, {REP: TRUE}), subst(S.V, {REP: TRUE})
    c.equal("a parcel moves to the neighbour it drew, a stopped parcel stays stopped", V0, n0, w)
    # a parcel may or may not have been flagged by then
    lf = [t for l, t in L.phi.items() if l == loc_of(R, "free_surf_flag") or l[0] == "f" and l[-1] == "free_surf_flag"]
    t0 = subst(t0, {mk("idx", t, P_): sym("$flag", "s") for t in lf})
    c.equal("a parcel that reaches the domain edge stops there, any other goes on from the cell it moved to",
            t0, sel(eq(ct_at(c, n0), C(-1)), ZERO, n0), w)
    if S.rep is None:
        return c.unk("returning parcels are relocated", w, "repeat test not recognised")
    if moved is not None:
        c.equal("parcels are not relocated in their first steps", sel(moved, ZERO, V1), sel(moved, ZERO, n0), w)
    Vr, tr = ret(V1), ret(t1)
    late = {}
    for a in subterms(Vr):
        if a.op in ("lt", "le", "eq", "not") and not is_array(a) and S.step in subterms(a):
            try:
                if implies(far, a) is None:
                    late[a] = TRUE
            except (Undecided, RecursionError):
                pass
    Vr, tr = norm(subst(Vr, late)), norm(subst(tr, late))
    rest = [a for a in subterms(Vr) if a.op in ("lt", "le", "eq") and not is_array(a) and S.step in subterms(a)]
    if rest:
        stay = norm(subst(Vr, {a: v for a in rest for v in (FALSE,)})), norm(subst(Vr, {a: TRUE for a in rest}))
        if NW in stay:
            return c.bad("a returning parcel is relocated", w, "depends on the number of steps taken: %s" % show(rest[0])[:100])
    m = {Vr: V_}
    c.equal("a relocated parcel that reaches the domain edge stops there, any other goes on from there",
            norm(subst(tr, m)), sel(eq(ct_at(c, V_), C(-1)), ZERO, V_), w)
    inside(c, Vr, w)
    pred, walk = S.exists()
    lw = L.phi.get(W.lwalk)
    el = sym("$w", "s")
    name = "a return is a visit to a cell the parcel visited before, past the inlet"
    ok = walk.op == "idx" and walk.args[0] is lw and walk.args[1].op == "tuple" and walk.args[1].args[0].op == "elem" and \
        full_slice(walk.args[1].args[1])
    if not ok:
        part = walk.args[1].args[1] if walk.op == "idx" and walk.args[0] is lw and walk.args[1].op == "tuple" and len(walk.args[1].args) == 2 else None
        if part is not None and part.op == "slice":
            a, b = [x if isinstance(x, T) else NONE for x in part.args[:2]]
            late = S.step in subterms(a) and all(x.op in ("c", "add", "mul", "max", "sel", "lt", "le") for x in subterms(a) if x not in subterms(S.step))
            if num(b) is not None and num(b) > 0 or late:
                return c.bad(name, w, "only a part of the walk is looked at: %s" % show(part)[:80])
        c.unk(name, w, show(walk)[:100])
    else:
        e = walk.args[1].args[0]
        own = {x: W.P.at(W.P.loops[e.args[0]].init[l], P_) for l, ph in W.P.loops[e.args[0]].phi.items()
               for x in [mk("idx", ph, e)] if is_array(ph) and x in subterms(pred)}
        pred = subst(subst(pred, own), {e: P_})
        pred = ret(W.P.elems(pred, P_))
        cut = mul(c.s("L0"), shape_(c, 1))
        alts = [and_(lt(ZERO, el), lt(sub(cut, ONE), el), eq(sub(el, NW), ZERO)), and_(lt(ZERO, el), le(cut, el), eq(sub(el, NW), ZERO))]
        pos = [("p", NW, 1)]
        if any(_same(pred, a, pos) for a in alts):
            c.ok(name, w, "every recorded cell of the parcel")
        else:
            c.equal(name, pred, alts[0], w, facts=pos)
    # flags
    lf = loc_of(R, "free_surf_flag")
    row, col = mk("floordiv", NW, shape_(c, 1)), mk("mod", NW, shape_(c, 1))
    off = le(C(Fraction(1, 10)), tabs(sub(mk("idx", c.s("stage"), mk("tuple", row, col)), c.sp("H_SL"))))
    if lf is None or lf not in L.phi:
        c.unk("a returning parcel is flagged exactly when the water surface there is not at sea level", w, "flag not recognised")
    else:
        f = S.view(W.P.at(W.next(lf)))
        own = mk("idx", L.phi[lf], P_)
        c.equal("a returning parcel is flagged exactly when the water surface there is not at sea level", norm(subst(ret(f), m)),
                sel(off, ZERO, own), w)
        c.equal("other parcels are not flagged", subst(f, {REP: FALSE}), own, w)
        f1 = subst(f, {REP: TRUE})
        c.equal("parcels are not flagged in their first steps", sel(moved, ZERO, f1), sel(moved, ZERO, own), w)
    wk = W.next(W.lwalk)
    got, t = None, wk
    for _ in range(3):
        if t.op == "store" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and full_slice(t.args[1].args[0]):
            got = t
            break
        if t.op == "sel":
            t = t.args[1]
    if got is None:
        c.unk("every step is recorded in the parcel's walk", w, show(wk)[:80])
    else:
        c.equal("every step is recorded in its own column of the walk", got.args[1].args[1], add(S.step, ONE), w)
        b = got.args[0]
        if b.op == "sel" and lw in b.args[1:]:
            g = b.args[0] if b.args[2] is lw else not_(b.args[0])
            n = [x for x in subterms(g) if x.op == "idx" and num(x.args[1]) == 1 and lw in subterms(x.args[0])]
            if n:
                x = sym("$cols", "s")
                c.implied("the record of the walks grows before it is full", le(x, add(S.step, ONE)), subst(g, {n[0]: x}), w,
                          why="a step beyond the last column has no room")
        elif b is lw:
            D = c.run_method("create_domain", key="create_domain")
            a = D.raw("free_surf_walk_inds") if D is not None else None
            sh = getattr(D.st.heap.get(a.id), "shape", None) if isinstance(a, Ref) and a.kind == "arr" else None
            n = idx(sh, ONE) if isinstance(sh, T) else None
            O = c.run_method("create_other_variables")
            if n is not None and O is not None:
                n = subst(n, {x: O.field(str(x.args[0])[5:]) for x in subterms(n) if x.op == "sym" and str(x.args[0]).startswith("self.") and
                              isinstance(O.field(str(x.args[0])[5:]), T)})
                smax = O.prop("stepmax")
                for _ in range(3):
                    n, smax = (subst(t, {x: x.args[-1] for x in subterms(t) if "int" in (x.op, x.args[0] if x.args else "")}) if isinstance(t, T) else t
                               for t in (n, smax))
            ob, smax = "the record of the walks has room for every step", c.sp("stepmax") if O is None else smax
            try:
                opaque = n is None or n.op == "idx" or any(x.op in ("unk", "ext") for x in subterms(n))
                if not opaque and implies(lt(ONE, smax), lt(smax, n)) is None:
                    c.ok(ob, w)
                elif not opaque and implies(lt(ONE, smax), le(n, smax)) is None:
                    c.bad(ob, w, "it has %s columns and never grows" % show(n)[:60])
                else:
                    c.unk(ob, w, "size not recognised")
            except (Undecided, RecursionError):
                c.unk(ob, w, "size not recognised")
        v = S.view(W.P.at(got.args[2]))
        c.equal("the walk records the cell the parcel moved to", subst(v, {REP: FALSE}), n0, w)
        c.equal("the walk records the cell the parcel was relocated to", norm(subst(ret(v), m)),
                sel(and_(off, eq(ct_at(c, V_), C(-1))), ZERO, V_), w)


def gridshape(c, t):
    """all grids of the model have the same shape, L rows and W columns"""
    m = {}
    for x in subterms(t):
        if x.op == "shape" and x.args[0] != "self.stage" and x.args[0] in GRIDS:
            m[x] = mk("shape", "self.stage")
    t = subst(t, m) if m else t
    return subst(t, {c.s("L"): shape_(c, 0), c.s("W"): shape_(c, 1)})


GRIDS = {"self." + n for n in ("stage", "depth", "eta", "qx", "qy", "qw", "ux", "uy", "uw", "cell_type", "qxn", "qyn", "qwn",
                               "sfc_visit", "sfc_sum", "eta0", "Vp_dep_sand", "Vp_dep_mud", "qs", "sand_frac", "active_layer")}


def shape_(c, k):
    return mk("idx", mk("shape", "self.stage"), C(k))


def inside(c, V, w):
    name = "a returning parcel is put past the inlet rows and inside the outermost cells"
    n1, n2 = shape_(c, 0), shape_(c, 1)
    p = TM.poly(norm(V))
    A, B = {}, {}
    for m, k in p.items():
        d = [x for x, e in m if x is norm(n2) and e == 1]
        if d:
            A[tuple(y for y in m if y[0] is not d[0])] = k
        else:
            B[m] = k
    A, B = TM.from_poly(A), TM.from_poly(B)
    if not A.args:
        return c.unk(name, w, "location is %s" % show(V)[:120])
    line(c, A, B, w)
    facts = [("p", sub(sub(n1, C(2)), c.s("L0")), 1), ("p", sub(n2, C(3)), 1), ("p", NW, 1)]
    m = {}
    for k, x in enumerate((A, B)):
        for y in subterms(x):
            if y.op in ("sel", "div", "app", "pw") and y is not x or y.op == "mod" or y.op == "floordiv":
                m[y] = sym("$free%d" % len(m), "s")
    top = {y: v for y, v in m.items() if not any(y is not z and y in subterms(z) for z in m)}
    A, B = subst(A, top), subst(B, top)
    c.implied(name, TRUE, and_(le(c.s("L0"), A), le(A, sub(n1, C(2))), le(ONE, B), le(B, sub(n2, C(2)))), w, facts=facts)


def line(c, A, B, w):
    """the new location lies five cells along the line from the inlet through the old one, within the limits"""
    name = "a returning parcel is moved along the line from the inlet through its cell"
    r, k = sym("$row", "s"), sym("$col", "s")
    m = {norm(mk("floordiv", NW, shape_(c, 1))): r, norm(mk("mod", NW, shape_(c, 1))): k}
    A, B = norm(subst(A, m)), norm(subst(B, m))
    got = mk("tuple", A, B)

    def spec(r0):
        F = (sub(r, C(r0)), sub(k, c.s("CTR")))
        n = power(add(power(F[0], C(2)), power(F[1], C(2))), C(Fraction(1, 2)))
        P = [sel(eq(n, ZERO), x, add(x, mk("pw", "round", mul(div(f, n), C(5))))) for x, f in zip((r, k), F)]
        return (tmin(sub(shape_(c, 0), C(2)), tmax(c.s("L0"), P[0])), tmin(sub(shape_(c, 1), C(2)), tmax(ONE, P[1])))
    facts = [("p", sub(sub(shape_(c, 0), C(2)), c.s("L0")), 1), ("p", sub(shape_(c, 1), C(3)), 1)]
    alts = [spec(r0) for r0 in (1, 0)]
    for a in alts:
        if _same(A, a[0], facts) and _same(B, a[1], facts):
            return c.ok(name, w)
    c.equal(name + " (row)", A, alts[0][0], w, facts=facts)
    c.equal(name + " (column)", B, alts[0][1], w, facts=facts)


def _p30_sed(c):
    """sediment parcels: bounded, and stopped at the domain edge"""
    for which in ("sand", "mud"):
        S = steps(c, which)
        W = sed_weights(c, which)
        if W is None:
            c.unk("%s parcels stop at the domain edge" % which, "", "step not recognised")
            continue
        S, V, here, k, straight = W
        L, R = S.L, S.R
        w = S.where
        names = ("%s parcels take a bounded number of steps" % which, "%s parcels stop at the domain edge" % which)
        for st in ends(L):
            m = {ph: R.I.loc_term(l, st) for l, ph in L.phi.items()}
            again = FALSE if st is not L.end else subst(L.cond, m)
            p = written(S.next("eta", st), S.phi("eta"))[0]
            cs = [(l, ph) for l, ph in L.phi.items() if not is_array(ph) and l in L.init and norm(sub(m[ph], ph)) is ONE and
                  num(norm(L.init[l])) is not None and ph in subterms(again)]
            if again is FALSE:
                continue
            edge = eq(mk("idx", c.s("cell_type"), p), C(-1))
            ab = step_names(p)
            pc = and_(again, *[q for q in (subst(q, ab) for q in st.pc if q not in L.body_pc) if not sanity(q)])
            plainly(c, names[1], subst(pc, ab), subst(not_(edge), ab), w, "the parcel goes on from an edge cell")
            for h, q in zip(here, p.args):
                if h in m:
                    c.equal("%s parcels go on from the cell they moved to" % which, m[h], q, w)
            if bounded_iter(c, L):
                c.ok(names[0], w)
                continue
            if len(cs) != 1:
                c.unk(names[0], w, "no step counter in the loop condition")
                continue
            n = add(cs[0][1], ONE)
            plainly(c, names[0], subst(pc, ab), subst(not_(eq(sub(n, c.sp("stepmax")), ZERO)), ab), w, "the loop goes on at the step limit",
                    keep={subst(cs[0][1], ab)})
            c.equal("%s parcels' step count starts at zero" % which, L.init[cs[0][0]], ZERO, w)


def plainly(c, name, cond, concl, w, why, keep=None):
    """implication between conditions on the state at the head of the loop, which is arbitrary;
    keep: the only quantities whose values matter, any other condition can hold or fail"""
    m = {}
    if keep is not None:
        for a in subterms(cond):
            if a.op in ("eq", "lt", "le", "truth") and not any(x in keep for x in subterms(a)) and not is_array(a):
                m[a] = sym("$cond%d" % len(m), "b")
        cond = subst(cond, m)
        m = {}
    for x in sorted(subterms(cond) | subterms(concl), key=lambda x: x.id):
        if x.op == "phi" and not is_array(x):
            m[x] = sym("$" + str(x.args[1]), "b" if is_bool(x) else "s")
    for x in subterms(cond):
        if x.op in ("app", "aapp") and x.args[0] in ("sum", "any") and not is_array(x):
            m[x] = sym("$" + x.args[0], "b" if x.args[0] == "any" else "s")
    return c.implied(name, subst(cond, m), subst(concl, m), w, why=why)


def sanity(q):
    """a condition over whole arrays (the error checks of the routing); says nothing about the position"""
    return any(x.op in ("aapp", "phi") and is_array(x) or x.op == "app" and x.args[0] in ("all", "any") for x in subterms(q))


def bounded_iter(c, L):
    it = L.iter
    return isinstance(it, T) and it.op in ("app", "aapp") and it.args[0] in ("range", "arange") and \
        norm(it.args[2]) in (norm(c.sp("stepmax")), norm(pw("int", c.sp("stepmax"))))


def step_names(p):
    """plain names for the row and column entered"""
    if p.op != "tuple":
        return {}
    return {mk("tuple", *p.args): mk("tuple", sym("$row", "s"), sym("$col", "s"))}


def _p30_row0(c):
    """no choice leads from the upstream row to the row above the grid"""
    for which in ("sand", "mud"):
        name = "%s parcels in the upstream row are never sent above the grid" % which
        W = sed_weights(c, which)
        if W is None:
            c.unk(name, "", "choice of direction not recognised")
            continue
        S, V, here, k, straight = W
        al, bad, und = mirrors(S)
        H = Hood(here, al)
        grids(H, c)
        H.name(S.phi("depth"), "depth")
        V = H.rewrite(V)
        if H.problems or H.unclear or bad or und:
            c.unk(name, S.where, "neighbourhood not recognised")
            continue
        V = elements(subst(V, {here[0]: ZERO, here[1]: J_}))
        sm = Sums([("p", mk("idx", c.s("distances_flat"), K), 1)])
        got = elem_at(elements(sm.rewrite(V)))
        above(c, name, got, S.where, [])
    W = weights_of_water(c)
    if W is None:
        return c.unk("water parcels in the upstream row are never sent above the grid", "", "weight computation not recognised")
    R, L, p, V, cond, _ = W
    w = "%s (%s)" % (L.where, L.fn.qual if L.fn else "")
    H = Hood(p)
    grids(H, c)
    V = H.rewrite(V)
    if H.problems or H.unclear:
        return c.unk("water parcels in the upstream row are never sent above the grid", w, "neighbourhood not recognised")
    V = subst(V, {p[0]: ZERO, p[1]: J_})
    sm = Sums([("p", mk("idx", c.s("distances_flat"), K), 1)])
    water_spec(c, sm, True)
    got = elem_at(elements(sm.rewrite(elements(V))))
    D, CT = nb("depth", K), nb("cell_type", K)
    ok = and_(not_(lt(D, c.s("dry_depth"))), not_(eq(CT, C(-2))), not_(CTR), not_(lt(K, C(3))))
    nw = sm.of(sel(ok, ONE, ZERO))
    # the total weight: the positive sum the weights are divided by
    tw = [x for x in sm.totals if x in subterms(got)]
    tw = tw[0] if len(tw) == 1 and tw[0] is not nw else None
    if tw is None:
        return c.unk("water parcels in the upstream row are never sent above the grid", w, "total weight not recognised")
    above(c, "water parcels in the upstream row are not sent above the grid by the weighted choice", got, w, [("p", tw, 1)])
    above(c, "water parcels in the upstream row without weights are not sent above the grid when a neighbour is wet", got, w,
          [("p", tw, 0), ("p", nw, 1)])
    above(c, "water parcels in the upstream row with no wet neighbour are not sent above the grid", got, w,
          [("p", tw, 0), ("p", nw, 0)])


def above(c, name, got, w, facts):
    dist = [("p", mk("idx", c.s("distances_flat"), C(k)), 1) for k in range(9)]
    for k in range(3):
        g = subst(got, {K: C(k)})
        if not _same(g, ZERO, facts + dist) or k == 2:
            return c.equal(name, g, ZERO, w, facts=facts + dist, why="choice %d (above the cell)" % k)


# ------------------------------------------------------------------ P32
def strip_shape(t):
    while t.op == "aapp" and t.args[0] in ("reshape", "flat", "ravel", "flatten", "copy", "asarray"):
        t = t.args[1]
    return t


class Scatter:
    """what one pass of the water loop adds to a grid: list of (cell, amount, condition), each per parcel $p"""

    def __init__(self, S, loc):
        self.S, self.W = S, S.W
        self.why = None
        self.wrong = None
        self.out = []
        t = self.W.next(loc)
        base = self.W.L.phi[loc]
        while self.why is None and t is not base:
            t = strip_shape(t)
            if t is base:
                break
            if t.op == "sel" and t.args[0].op in ("app", "aapp") and t.args[0].args[0] == "all" and is_array(t.args[0].args[1]):
                self.wrong = "the update of the selected parcels is made only when all parcels are selected"
                return
            if t.op == "sel" and counted(self.W, t.args[0]) == {True, False}:
                self.wrong = "the update is made only at some steps: %s" % show(t.args[0])[:80]
                return
            if t.op == "sel" and anymask(t.args[0]) is not None:
                # when no parcel is selected the pass over the selected parcels adds nothing
                A, B = strip_shape(t.args[1]), strip_shape(t.args[2])
                n = len(self.out)
                r = self.one(A)
                k = 0
                while r is not None and strip_shape(r) is not B and k < 3:
                    r = self.one(strip_shape(r))
                    k += 1
                if r is None or strip_shape(r) is not B:
                    self.why = "conditional update not recognised"
                    return
                if not all(g in guards_of(anymask(t.args[0]), self.W.P) for g in [x[3] for x in self.out[n:]]):
                    self.why = "update conditional on other parcels"
                    return
                t = B
                continue
            r = self.one(t)
            if r is None:
                if self.why is None:
                    self.why = "update %s not recognised" % show(t)[:60]
                return
            t = r

    def one(self, t):
        P = self.W.P
        if t.op != "lout" or t not in P.byout:
            return None
        L, l = P.byout[t]
        if L.exits or l not in L.next or not isinstance(L.iter, T):
            return None
        ph, nx = L.phi[l], L.next[l]
        ws = written(nx, ph)
        if ws is None or len(ws) != 1:
            return None
        e = mk("elem", L.id, "i", "s")
        src = L.iter
        if src.op in ("app", "aapp") and src.args[0] in ("range", "arange"):
            if not (num(src.args[1]) == 0 and len(src.args) > 2 and (len(src.args) < 4 or num(src.args[3]) == 1)):
                return None
            h = src.args[2]
            if h.op == "app" and h.args[0] == "len":
                src = h.args[1]
            elif h.op == "idx" and num(h.args[1]) == 0 and h.args[0].op == "app":
                src = h.args[0].args[1]
            else:
                return None
        pos, o = ws[0], sym("$o", "s")
        v = subst(idx(nx, pos), {idx(ph, pos): o})
        amt = subst(v, {o: ZERO})
        if not _same(v, add(o, amt), []):
            try:
                r = decide_equal(v, add(o, amt))
            except Undecided:
                return None
            if o not in subterms(r[1]):
                self.wrong = "a parcel replaces what earlier parcels added at the cell"
            return None
        arrs = {x.args[0] for y in (pos, amt) for x in subterms(y) if x.op == "idx" and x.args[1] is e and is_array(x.args[0])}
        g = masks(src)
        for x in arrs:
            if masks(x) != g:
                self.wrong = "arrays of all parcels and of selected parcels are mixed"
                return None
        m = {mk("idx", x, e): P.at(x, P_) for x in arrs}
        pos, amt = subst(pos, m), subst(amt, m)
        # what depends on the number of the parcel in the loop: any number
        amt = subst(amt, {e: tmax(ZERO, sym("$nth", "s"))})
        if e in subterms(pos) or ph in subterms(amt):
            return None
        guard = and_(*[P.at(q, P_) for q in sorted(g, key=lambda q: q.id)])
        self.out.append((pos, amt, guard, guard))
        return L.init[l]


def counted(W, q):
    """truth values a condition on the number of the step takes over the steps"""
    m = {}
    for l, ph in W.L.phi.items():
        n0 = num(W.L.init[l]) if isinstance(W.L.init.get(l), T) else None
        nx = W.L.next.get(l)
        if n0 is not None and nx is not None and norm(nx) is norm(add(ph, ONE)):
            m[ph] = n0
    used = [x for x in subterms(q) if x.op not in ("c", "add", "mul", "lt", "le", "eq", "and", "or", "not", "mod", "floordiv", "min", "max")]
    if not used or len(set(used)) != 1 or used[0] not in m:
        return set()
    ks = {int(num(x)) for x in subterms(q) if x.op == "c" and num(x) is not None and abs(num(x)) < 1e6}
    out = set()
    for n in sorted({0, 1, 2, 3} | {abs(k) + d for k in ks for d in (-2, -1, 0, 1, 2)}):
        if n < 0:
            continue
        r = norm(subst(q, {used[0]: C(m[used[0]] + n)}))
        out.add(True if r is TRUE else False if r is FALSE else None)
    return out


def masks(t):
    """masks selecting the elements of an array of parcels"""
    if t.op == "idx" and is_bool(t.args[1]) and is_array(t.args[1]):
        return masks(t.args[0]) | {t.args[1]}
    if t.op in TM.POINTWISE:
        out = set()
        for a in t.args[1:] if t.op == "sel" else t.args:
            if isinstance(a, T) and is_array(a):
                out |= masks(a)
        return out
    if t.op == "idx" and is_array(t.args[1]) and t.args[1].op not in ("tuple", "slice", "flat"):
        return masks(t.args[1])
    return set()


def anymask(q):
    """mask m when q says that some element of m holds"""
    if q.op in ("app", "aapp") and q.args[0] == "any" and len(q.args) == 2:
        return q.args[1]
    if q.op == "lt" and q.args[0] is ZERO or q.op == "le" and q.args[0] is ONE:
        q = q.args[1]
        if q.op in ("app", "aapp") and q.args[0] in ("sum", "count_nonzero") and len(q.args) == 2 and is_bool(q.args[1]):
            return q.args[1]
    return None


def guards_of(mask, P):
    return [P.at(mask, P_)]


def p32(c):
    S = water_step(c)
    if S is None or S.why:
        return c.unk("steps of water parcels", "", S.why if S else "loop not recognised")
    W = S.W
    w = W.where
    I = [k % 3 - 1 for k in range(9)]
    J = [k // 3 - 1 for k in range(9)]
    half = div(div(c.s("Qp_water"), c.sp("dx")), C(2))
    for name in ("qxn", "qyn", "qwn"):
        loc = [l for l in W.L.phi if l == ("f", W.R.obj.id, name) or l == loc_of(W.R, name)]
        what = {"qxn": "downstream direction", "qyn": "lateral direction", "qwn": "discharge magnitude"}[name]
        if not loc:
            c.unk("%s along the path" % what, w, "field not updated by the loop")
            continue
        Q = Scatter(S, loc[0])
        if Q.wrong:
            c.bad("%s along the path" % what, w, Q.wrong)
            continue
        if Q.why:
            c.unk("%s along the path" % what, w, Q.why)
            continue
        edge = eq(ct_at(c, S.V), C(-1))
        ents = [(S.view(a), S.view(b), S.view(g)) for a, b, g, _ in Q.out]
        seen = {"left": ZERO, "entered": ZERO, "edge": ZERO}
        n0 = new0(c, W.c0, X_)
        bad = None
        for pos, amt, g in ents:
            if g is TRUE and _same(pos, W.c0, []):
                seen["left"] = add(seen["left"], amt)
            elif g is TRUE and _same(pos, n0, []):
                seen["entered"] = add(seen["entered"], amt)
            elif norm(pos) is norm(S.V) and norm(g) is norm(edge):
                seen["edge"] = add(seen["edge"], amt)
            else:
                bad = (pos, g)
        if bad and opaque(mk("tuple", *bad), mk("tuple", W.c0, n0, S.V, edge)):
            c.unk("%s is added only at the cells left and entered" % what, w, "added at %s" % show(bad[0])[:120])
            continue
        if bad:
            c.bad("%s is added only at the cells left and entered" % what, w, "added at %s%s" % (
                show(bad[0])[:120], "" if bad[1] is TRUE else " when " + show(bad[1])[:80]))
            continue
        c.ok("%s is added only at the cells left and entered" % what, w, "%d updates" % len(ents))
        stop = {norm(eq(W.c0, ZERO)): TRUE}
        for where, amt in seen.items():
            label = {"left": "the cell left", "entered": "the cell entered", "edge": "the edge cell reached, once more"}[where]
            nm = "%s added at %s" % (what, label)
            amt = norm(amt)
            for k in list(range(9)) + ["stopped"]:
                if k == "stopped":
                    a = steps_of(c, norm(subst(amt, stop)), 4, I, J)
                    want = ZERO
                else:
                    a = norm(subst(amt, {norm(eq(W.c0, ZERO)): FALSE}))
                    a = steps_of(c, norm(subst(a, {X_: C(k)})), k, I, J)
                    d = Fraction(I[k] ** 2 + J[k] ** 2)
                    comp = {"qxn": J[k], "qyn": I[k]}.get(name)
                    want = ZERO if k == 4 else half if comp is None else mul(C(comp), power(C(d), C(Fraction(-1, 2))))
                if not _same(a, want, []) or k == "stopped":
                    c.equal(nm, a, want, w, why="direction %s" % k)
                    break
    _p32_field(c)


def steps_of(c, t, k, I, J):
    return norm(subst(t, {mk("idx", c.s("iwalk_flat"), C(k)): C(I[k]), mk("idx", c.s("jwalk_flat"), C(k)): C(J[k])}))


def _p32_field(c):
    Z = c.run_method("init_water_iteration")
    if Z is not None:
        for n in ("qxn", "qyn", "qwn"):
            c.equal("'%s' starts from zero in every water iteration" % n, at_cell(Z, n), ZERO, Z.last_store(n))
    it = sym("iteration", "s")
    F = c.run_method("update_flow_field", args=[it], key="uff")
    if F is None:
        return c.unk("discharge of a water iteration", "", "update_flow_field not found")
    inl = inlet_cell(c)
    g = {n: mk("idx", c.s(n), mk("tuple", *IJ)) for n in ("qxn", "qyn", "qwn", "qx", "qy")}
    d = power(add(power(g["qxn"], C(2)), power(g["qyn"], C(2))), C(Fraction(1, 2)))
    sc = sel(lt(ZERO, d), div(g["qwn"], d), ONE)
    om = sel(eq(it, ZERO), c.sp("omega_flow"), c.s("omega_flow_iter"))
    later = lt(ZERO, c.s("_time_iter"))
    for n in ("qx", "qy"):
        got = drop_cell(at_cell(F, n), inl)
        new = mul(g[n + "n"], sc)
        c.equal("'%s' is the accumulated discharge, mixed with the previous one after the first timestep" % n, got,
                sel(later, add(mul(om, new), mul(sub(ONE, om), g[n])), new), F.last_store(n), facts=[])


def drop_cell(t, cond):
    return subst(t, {a: FALSE for a in (cond.args if cond.op == "and" else (cond,)) if a.op == "app"})


# ------------------------------------------------------------------ P33
PATH = sym("$path", "a")


def p33(c):
    R = c.run_method("compute_free_surface")
    if R is None:
        return c.unk("free surface", "", "compute_free_surface not found")
    _p33_walks(c, R)
    _p33_surface(c, R)
    _p33_smooth(c, R)
    nothing = lambda I, *a, **k: NONE
    F = c.run_method("finalize_free_surface", override={"flooding_correction": nothing, "_smooth_free_surface": lambda I, *a, **k: sym("$smooth", "a")},
                     key="ffs")
    if F is not None:
        om = c.sp("omega_sfc")
        st = mk("idx", c.s("stage"), mk("tuple", *IJ))
        sm = mk("idx", sym("$smooth", "a"), mk("tuple", *IJ))
        c.equal("from the second timestep on the new surface is mixed with the previous one by the configured weight", at_cell(F, "stage"),
                sel(lt(ZERO, c.s("_time_iter")), add(mul(sub(ONE, om), st), mul(om, sm)), st), F.last_store("stage"))
    W = c.run_method("finalize_water_iteration", args=[sym("iteration", "s")], key="fwi")
    if W is not None:
        c.equal("after the mixing the surface is raised to sea level", at_cell(W, "stage"),
                tmax(mk("idx", c.s("stage"), mk("tuple", *IJ)), c.sp("H_SL")), W.last_store("stage"))


def _p33_walks(c, R):
    P = Parcel(R)
    v, h = R.field("sfc_visit"), R.field("sfc_sum")
    name = "which parcels contribute to the water surface"
    if v not in P.byout or h not in P.byout or P.byout[v][0] is not P.byout[h][0]:
        return c.unk(name, "", "accumulation over parcels not recognised")
    L1, lv = P.byout[v]
    lh = P.byout[h][1]
    w = "%s (%s)" % (L1.where, L1.fn.qual if L1.fn else "")
    inner = [L for L in R.I.loops.values() if L.outer == (L1.id,) and lv in L.phi and lh in L.phi]
    if len(inner) != 1 or L1.exits:
        return c.unk(name, w, "walk of a parcel not recognised")
    L5 = inner[0]
    e1, e5 = mk("elem", L1.id, "i", "s"), mk("elem", L5.id, "i", "s")
    walk = c.s("free_surf_walk_inds")
    for n, l in (("visits", lv), ("elevations", lh)):
        c.equal("the count of %s starts from zero" % n, cell(L1.init[l], IJ), ZERO, w)
    it = L1.iter
    ok = it is walk or (it.op in ("app", "aapp") and it.args[0] in ("range", "arange") and num(it.args[1]) == 0 and it.args[2] in (
        app("len", walk), idx(mk("shape", "self.free_surf_walk_inds"), ZERO), c.sp("Np_water")))
    if isinstance(it, T) and it.op == "idx" and it.args[0] is walk and it.args[1].op == "slice" and not full_slice(it.args[1]):
        return c.bad("every parcel is considered", w, "only %s are walked" % show(it)[:80])
    if not ok:
        c.unk("every parcel is considered", w, show(it)[:80])
    else:
        c.ok("every parcel is considered", w)
    row = idx(walk, e1)
    paths = {}


    def view(t):
        m = {x: row for x in subterms(t) if x.op == "idx" and x.args[0] is walk and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and
             x.args[1].args[0] is e1 and full_slice(x.args[1].args[1])}
        t = subst(t, m) if m else t
        m = {}
        for x in subterms(t):
            if x.op == "idx" and x.args[0].op == "lout" and x.args[0] in P.byout and is_array(x.args[0]) and x.args[0] not in m:
                y = P.mapped(x.args[0], x.args[1])
                if y is not None:
                    m[x] = y
            if x.op == "app" and x.args[0] == "len" and x.args[1].op == "lout" and x.args[1] in P.byout:
                L = P.byout[x.args[1]][0]
                if isinstance(L.iter, T) and P.full(L):
                    r = L.iter
                    m[x] = r.args[2] if r.op == "app" and r.args[0] == "range" else app("len", r)
        t = subst(t, m)
        m = {x: row for x in subterms(t) if x.op == "idx" and x.args[0] is walk and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and
             x.args[1].args[0] is e1 and full_slice(x.args[1].args[1])}
        t = subst(t, m) if m else t
        m = {}
        for x in subterms(t):
            if x.op == "idx" and x.args[0] is row and is_bool(x.args[1]):
                q = subst(x.args[1], {row: sym("$w", "s")})
                if norm(q) is norm(lt(ZERO, sym("$w", "s"))):
                    m[x] = PATH
                else:
                    paths[x] = q
        t = subst(t, m)
        if not paths and walk in subterms(t):
            t = subst(t, {walk: mk("aapp", "unrecognised", walk)})
        return gridshape(c, t)
    # which parcels
    nv = L1.next[lv]
    cond = None
    if nv.op == "sel" and nv.args[1] is L5.out.get(lv) and nv.args[2] is L1.phi[lv]:
        cond = nv.args[0]
    elif nv.op == "sel" and nv.args[2] is L5.out.get(lv) and nv.args[1] is L1.phi[lv]:
        cond = not_(nv.args[0])
    elif nv is L5.out.get(lv):
        cond = TRUE
    if cond is None:
        return c.unk(name, w, show(nv)[:100])
    W_ = shape_(c, 1)

    def rc(k):
        p = idx(PATH, k)
        return mk("floordiv", p, W_), mk("mod", p, W_)

    def at(grid, k):
        return mk("idx", c.s(grid), mk("tuple", *rc(k)))
    last = C(-1)
    want = and_(eq(idx(c.s("free_surf_flag"), e1), ONE), eq(at("cell_type", last), C(-1)))
    c.equal("only unflagged parcels whose recorded path ends at the domain edge contribute", view(cond), want, w)
    if nv.op == "sel":
        nh = L1.next[lh]
        c.equal("elevations are accumulated for the same parcels", sel(view(cond), ONE, ZERO) if nh is nv else flag_of(nh, L5.out.get(lh), L1.phi[lh], view),
                sel(want, ONE, ZERO), w)
    # the walk back
    it = L5.iter
    n = app("len", PATH)
    itv = view(it) if isinstance(it, T) else None
    if itv is not None and itv.op == "app" and itv.args[0] == "range":
        c.equal("the path is followed back from the cell before the last", mk("tuple", *[norm(x) for x in itv.args[1:]]),
                mk("tuple", norm(sub(n, C(2))), C(-1), C(-1)), w)
    else:
        return c.unk("the path is followed back from the cell before the last", w, show(it)[:80] if isinstance(it, T) else "")
    if L5.exits:
        return c.unk("the path is followed to its start", w, "loop can be left early")
    here, there = rc(e5), rc(add(e5, ONE))
    # locations of the elevation along the path, the step in elevation and the ocean flag
    hl = [l for l, ph in L5.phi.items() if is_array(ph) and l not in (lv, lh) and l in L5.next and written(L5.next[l], ph)]
    oc = [l for l, ph in L5.phi.items() if L5.init.get(l) in (TRUE, FALSE)]
    dh = [l for l, ph in L5.phi.items() if l[0] == "e" and not is_array(ph) and num(L5.init.get(l, NONE)) == 0 and L5.next.get(l) is not ph]
    if len(hl) == 1 and not oc:
        # an initial value that is not a constant is the constant it has for a contributing parcel
        oc = [l for l, ph in L5.phi.items() if l[0] == "e" and is_bool(ph) and not is_array(ph) and l in L5.init and l in L5.next]
        if len(oc) == 1:
            v = view(L5.init[oc[0]])
            try:
                t, f_ = implies(want, v) is None, implies(want, not_(v)) is None
            except (Undecided, RecursionError):
                t = f_ = None
            if t or f_:
                L5.init[oc[0]] = TRUE if t else FALSE
            else:
                op = [x for x in subterms(v) if x.op in ("phi", "lout", "undef")]
                (c.bad if t is False and not op else c.unk)("the walk back starts in the ocean", w, "starts as %s" % show(v)[:100])
                return
    if len(hl) == 1 and len(oc) == 1 and not dh:
        dh = [l for l, ph in L5.phi.items() if l[0] == "e" and not is_array(ph) and not is_bool(ph) and L5.next.get(l) not in (None, ph) and
              any(ph in subterms(t) for t in L5.next.values() if isinstance(t, T))]
        if len(dh) == 1:
            v = L5.init.get(dh[0], UNDEF)
            if any(x.op == "phi" and x.args[0] == L1.id for x in subterms(v)):
                return c.bad("every path starts level", w, "the rise of the previous parcel's path is carried over")
            if num(norm(view(v))) not in (None, 0):
                return c.bad("every path starts level", w, "starts with a rise of %s" % show(v)[:80])
    if len(hl) != 1 or len(oc) != 1 or len(dh) != 1:
        if len(hl) == 1:
            # what is written must depend on whether the shoreline was passed, which only a value carried along the path can tell
            t, seen = L5.next[hl[0]], set()
            carried = {ph for l, ph in L5.phi.items() if l not in (hl[0], lv, lh) and L5.next.get(l) is not ph}
            hp = written(t, L5.phi[hl[0]])
            val = view(idx(t, hp[0])) if hp and len(hp) == 1 else None
            if val is not None and not any(x in carried or x.op in ("lout", "unk", "aapp", "ext") or x.op == "phi" and x is not L5.phi[hl[0]]
                                           for x in subterms(val)):
                return c.bad("past the shoreline the surface rises by the slope along the flow", w,
                             "the surface of a path cell is %s wherever the shoreline is" % show(val)[:100])
            dep = R.closure([x for x in L5.next.values() if isinstance(x, T)] + [x for x in L5.init.values() if isinstance(x, T)])
            if val is not None and c.sp("u0") not in dep and c.sp("h0") not in dep and not any(x.op in ("unk", "ext") for x in dep):
                return c.bad("the surface stays at sea level until the shoreline is passed", w, "no test for the shoreline along the path")
        return c.unk("water surface along a path", w, "walk state not recognised")
    hl, oc, dh = hl[0], oc[0], dh[0]
    pos = L5.init[oc] is TRUE
    H, D = mk("idx", L5.phi[hl], mk("tuple", *there)), L5.phi[dh]
    O = L5.phi[oc] if pos else not_(L5.phi[oc])
    moved = or_(not_(eq(sub(here[0], there[0]), ZERO)), not_(eq(sub(here[1], there[1]), ZERO)))
    names = {here[0]: sym("$i", "s"), here[1]: sym("$j", "s"), there[0]: sym("$ip", "s"), there[1]: sym("$jp", "s"),
             L5.phi[dh]: sym("$dH", "s"), L5.phi[oc]: sym("$oc", "b")}
    i, j, ip, jp = (names[x] for x in (here[0], here[1], there[0], there[1]))
    names[H] = sym("$H", "s")

    def g(t):
        t = view(t)
        t = norm(t)
        t = subst(t, {norm(k): v for k, v in names.items()})
        t = subst(t, {mk("idx", L5.phi[hl], mk("tuple", ip, jp)): sym("$H", "s")})
        return norm(t)
    moved = or_(not_(eq(sub(i, ip), ZERO)), not_(eq(sub(j, jp), ZERO)))
    O, D, H = g(O), sym("$dH", "s"), sym("$H", "s")

    def f(n):
        return mk("idx", c.s(n), mk("tuple", i, j))
    shore = or_(lt(mul(c.sp("u0"), C(Fraction(1, 2))), f("uw")), lt(f("depth"), mul(C(Fraction(1, 10)), c.sp("h0"))))
    slope = div(mul(c.sp("S0"), add(mul(mul(f("ux"), sub(ip, i)), c.sp("dx")), mul(mul(f("uy"), sub(jp, j)), c.sp("dx")))), f("uw"))
    o1 = g(L5.next[oc] if pos else not_(L5.next[oc]))
    o1 = coords(o1, (i, ip), (j, jp))
    c.equal("the surface stays at sea level until the shoreline is passed", sel(moved, truth_(o1), FALSE), sel(moved, and_(O, not_(shore)), FALSE), w)
    d1 = coords(g(L5.next[dh]), (i, ip), (j, jp))
    dwant = sel(O, D, sel(eq(f("uw"), ZERO), ZERO, slope))
    c.equal("past the shoreline the surface rises by the slope along the flow", sel(moved, d1, ZERO), sel(moved, dwant, ZERO), w)
    hpos = written(L5.next[hl], L5.phi[hl])
    vpos, spos = written(L5.next[lv], L5.phi[lv]), written(L5.next[lh], L5.phi[lh])
    hm = mk("tuple", i, j)
    for nm, pp in (("visits", vpos), ("elevations", spos), ("surface", hpos)):
        if not pp or len(pp) != 1:
            return c.unk("%s of a path cell" % nm, w, "updates not recognised")
        c.equal("%s are recorded at the path cell" % nm if nm != "surface" else "the surface is computed at the path cell", g(pp[0]), hm, w)
    hv = coords(g(idx(L5.next[hl], hpos[0])), (i, ip), (j, jp))
    c.equal("the surface of a path cell is that of the next one plus the rise", sel(moved, hv, ZERO), sel(moved, add(H, dwant), ZERO), w)
    lastp = rc(last)
    st = L5.init[hl]
    if st.op == "store":
        c.equal("the path starts from sea level at its last cell", mk("tuple", view(st.args[1]), view(st.args[2])),
                mk("tuple", mk("tuple", *lastp), c.sp("H_SL")), w)
    else:
        c.equal("the path starts from sea level at its last cell", view(cell(st, lastp)), c.sp("H_SL"), w)
    o = sym("$o", "s")
    vv = coords(g(subst(idx(L5.next[lv], vpos[0]), {idx(L5.phi[lv], vpos[0]): o})), (i, ip), (j, jp))
    c.equal("each visit counts once", vv, add(o, ONE), w)
    sv = subst(idx(L5.next[lh], spos[0]), {idx(L5.phi[lh], spos[0]): o})
    sv = coords(g(sv), (i, ip), (j, jp))
    c.equal("the surface of the path cell is added to the sum of elevations", sel(moved, sv, ZERO), sel(moved, add(o, add(H, dwant)), ZERO), w)


def truth_(t):
    return t if is_bool(t) else truth(t)


def coords(t, *pairs):
    """comparisons of integer coordinates as comparisons of numbers"""
    m = {}
    for x in subterms(t):
        if x.op == "eq":
            for a, b in pairs:
                if set(x.args) == {a, b}:
                    m[x] = norm(eq(sub(a, b), ZERO))
    return subst(t, m) if m else t


def flag_of(n, out, ph, view):
    if n.op == "sel" and n.args[1] is out and n.args[2] is ph:
        return sel(view(n.args[0]), ONE, ZERO)
    if n.op == "sel" and n.args[2] is out and n.args[1] is ph:
        return sel(view(n.args[0]), ZERO, ONE)
    if n is out:
        return ONE
    return mk("app", "unrecognised", n)


def _p33_surface(c, R):
    v, h = R.field("sfc_visit"), R.field("sfc_sum")
    x = at_cell(R, "Hnew")
    m = {cell(v, IJ): sym("$visits", "s"), cell(h, IJ): sym("$sum", "s")}
    V, S_ = sym("$visits", "s"), sym("$sum", "s")
    g = lambda n: mk("idx", c.s(n), mk("tuple", *IJ))
    base = sel(lt(ZERO, V), div(S_, V), add(g("eta"), g("depth")))
    c.equal("the new surface is the mean over visits (else the previous one), not below sea level and not below the bed",
            subst(x, m), tmax(tmax(base, c.sp("H_SL")), g("eta")), R.last_store("Hnew"))


def _p33_smooth(c, R):
    nothing = lambda I, *a, **k: NONE
    F = c.run_method("finalize_free_surface", override={"flooding_correction": nothing}, key="ffs2")
    if F is None:
        return c.unk("smoothing", "", "finalize_free_surface not found")
    name = "smoothing of the new surface"
    Ls = [L for L in F.I.loops.values() if len(L.outer) == 2]
    hit = None
    for L in Ls:
        for l, ph in L.phi.items():
            if is_array(ph) and l in L.next and l[0] == "r":
                ws = written(L.next[l], ph)
                if ws and len(ws) == 1 and ws[0].op == "tuple" and len(ws[0].args) == 2 and all(a.op == "elem" for a in ws[0].args):
                    hit = (L, l, ws[0])
    if hit is None:
        return c.unk(name, "", "passes over the cells not recognised")
    L, l, p = hit
    L6, L10 = (F.I.loops[q] for q in L.outer)
    w = "%s (%s)" % (L.where, L.fn.qual if L.fn else "")
    cov = [covers(F, e, k, ()) for k, e in enumerate(p.args)]
    if None in cov:
        c.unk("smoothing visits every cell", w, "loops not recognised")
    elif all(cov):
        c.ok("smoothing visits every cell", w)
    else:
        c.bad("smoothing visits every cell", w, "cells are left out")
    it = L6.iter
    if isinstance(it, T) and it.op == "app" and it.args[0] == "range":
        c.equal("smoothing is repeated the configured number of times", norm(sub(it.args[2], it.args[1])), c.sp("Nsmooth"), w)
    else:
        c.unk("smoothing is repeated the configured number of times", w)
    if not (l in L6.phi and L10.init.get(l) is L6.phi[l] and L.init.get(l) is L10.phi.get(l) and L10.next.get(l) is L.out.get(l) and
            L6.next.get(l) is L10.out.get(l)):
        return c.unk(name, w, "passes not recognised")
    c.equal("smoothing starts from the new surface", cell(L6.init[l], IJ), mk("idx", c.s("Hnew"), mk("tuple", *IJ)), w)
    old = L6.phi[l]
    Hd = Hood(p.args)
    Hd.name(old, "H")
    Hd.name(c.s("cell_type"), "cell_type")
    own = mk("idx", L.phi[l], p)
    t = subst(idx(L.next[l], p), {own: sym("$own", "s")})
    if L.phi[l] in subterms(t):
        return c.bad("a smoothing pass uses the surface of the pass before", w, "reads cells already changed in this pass")
    t = Hd.rewrite(t)
    report(c, Hd, "smoothing", w)
    if Hd.problems or Hd.unclear:
        return
    # the cell's own value before the pass: cells are visited once
    t = subst(t, {sym("$own", "s"): nb("H", C(4))})
    sm = Sums([])
    ok = and_(not_(eq(nb("cell_type", K), C(-2))), not_(CTR))
    s, n = sm.of(sel(ok, nb("H", K), ZERO)), sm.of(sel(ok, ONE, ZERO))
    got = elements(sm.rewrite(elements(t)))
    cs = c.sp("Csmooth")
    want = sel(or_(eq(nb("cell_type", C(4)), C(-1)), le(n, ZERO)), nb("H", C(4)),
               add(mul(cs, nb("H", C(4))), mul(sub(ONE, cs), div(s, n))))
    c.equal("smoothing leaves edge cells alone and averages the neighbours that are not land", got, want, w)


# --------------------------------------------------------------------------------------------- P36
def p36(c):
    R = c.run_method("flooding_correction")
    name = "flooding of shore cells"
    if R is None:
        return c.unk(name, "", "flooding_correction not found")
    other = [n for n in ("eta", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "cell_type", "Hnew")
             if R.raw(n) is not None and isinstance(R.field(n), T) and norm(R.field(n)) is not norm(c.s(n))]
    if other:
        c.bad("the flooding correction changes only the water surface", R.last_store(other[0]), "changes %s" % ", ".join(other))
    else:
        c.ok("the flooding correction changes only the water surface")
    S = R.field("stage")
    w0 = R.last_store("stage")
    hits = [(L, l) for L in R.I.loops.values() for l in L.phi if L.out.get(l) is S]
    if len(hits) != 1 or hits[0][0].exits or hits[0][0].outer:
        return c.unk(name, w0, "not a single pass over cells")
    L, l = hits[0]
    w = "%s (%s)" % (L.where, L.fn.qual if L.fn else "")
    ph, nx = L.phi[l], L.next[l]
    c.equal("the correction starts from the current water surface", cell(L.init[l], IJ), mk("idx", c.s("stage"), mk("tuple", *IJ)), w)
    e = mk("elem", L.id, "i", "s")
    it = L.iter
    ws = [x for x in subterms(mk("tuple", it, nx)) if x.op == "where1"]
    conds = {x.args[0] for x in ws}
    one = [idx(x, C(k)) for x in ws for k in (0, 1)]

    def count(x):
        return x.op == "app" and x.args[0] in ("len", "size") and x.args[1] in one or \
            x.op == "idx" and num(x.args[1]) == 0 and x.args[0].op in ("app", "shape") and x.args[0].args[-1] in one
    if it.op == "app" and it.args[0] == "range" and len(conds) == 1 and (num(it.args[1]) or 0) > 0 and num(it.args[3]) == 1:
        return c.bad("every dry cell with a wet neighbour is considered", w, "cells visited: %s" % show(it)[:80])
    if it.op == "app" and it.args[0] == "range" and len(conds) == 1 and num(it.args[1]) == 0 and num(it.args[3]) == 1 and not count(it.args[2]):
        ns = [x for x in subterms(it.args[2]) if count(x)]
        if len(ns) == 1:
            return c.equal("every dry cell with a wet neighbour is considered", subst(it.args[2], {ns[0]: sym("$cells", "s")}), sym("$cells", "s"), w)
    if len(conds) != 1 or not (it.op == "app" and it.args[0] == "range" and num(it.args[1]) == 0 and num(it.args[3]) == 1 and count(it.args[2])):
        return c.unk(name, w, "cells visited: %s" % show(it)[:80])
    mask = conds.pop()

    def here(t):
        m = {}
        for x in subterms(t):
            if x.op == "idx" and x.args[1] is e and x.args[0].op == "idx":
                y = x.args[0]
                if y.args[0].op == "where1" and num(y.args[1]) in (0, 1):
                    m[x] = IJ[int(num(y.args[1]))]
                elif (y.args[1] is mask or y.args[1].op == "where1") and is_array(y.args[0]):
                    m[x] = cell(y.args[0], IJ)
        return subst(t, m)
    ws = written(nx, ph)
    nx = here(nx)
    if not ws or len(ws) != 1 or here(ws[0]) is not mk("tuple", *IJ):
        return c.unk(name, w, "the loop changes other cells than the one visited")
    v = subst(idx(nx, mk("tuple", *IJ)), {mk("idx", ph, mk("tuple", *IJ)): sym("$own", "s")})
    if ph in subterms(v):
        c.bad("the surfaces compared are those before the correction", w, "the pass reads water surfaces it changes itself")
        return
    c.ok("the surfaces compared are those before the correction", w)
    if e in subterms(v):
        return c.unk(name, w, "per-cell values not recognised")
    # guard and value
    own = sym("$own", "s")
    if v.op != "sel" or own not in v.args[1:]:
        if not {own, c.s("eta")} & set(subterms(v)) and c.s("eta") not in subterms(mask):
            return c.bad("only cells whose bed is below neighbouring water are flooded", w, "set whatever the bed is: %s" % show(v)[:80])
        return c.unk(name, w, show(v)[:100])
    g, val = (v.args[0], v.args[1]) if v.args[2] is own else (not_(v.args[0]), v.args[2])
    for rn, i, n0 in ROWS:
        for cn, j, n1 in COLS:
            _p36_at(c, "row %s, column %s" % (rn, cn), w, i, j, (n0, n1), mask, g, val, rn, cn)


A_, B_, C_, D_ = (sym(x, "s") for x in ("$a", "$b", "$c", "$d"))      # non-negative integers
ROWS = [("first", ZERO, add(C(3), B_)), ("interior", add(ONE, A_), add(C(3), add(A_, B_))), ("last", add(C(2), B_), add(C(3), B_))]
COLS = [("first", ZERO, add(C(3), D_)), ("interior", add(ONE, C_), add(C(3), add(C_, D_))), ("last", add(C(2), D_), add(C(3), D_))]


def _linear(t):
    """{symbol or None: coefficient} of a linear expression of the non-negative position parameters"""
    v = num(t)
    if v is not None:
        return {None: v}
    if t.op == "sym":
        return {t: 1} if t in (A_, B_, C_, D_) else None
    if t.op == "add":
        out = {}
        for a in t.args:
            l = _linear(a)
            if l is None:
                return None
            for k, x in l.items():
                out[k] = out.get(k, 0) + x
        return out
    if t.op == "mul":
        out = {None: 1}
        for a in t.args:
            l = _linear(a)
            if l is None:
                return None
            if set(out) == {None}:
                out = {k: x * out[None] for k, x in l.items()}
            elif set(l) == {None}:
                out = {k: x * l[None] for k, x in out.items()}
            else:
                return None
        return out
    return None


def _decided(x):
    """truth of a comparison of positions, where it holds for all values of the parameters"""
    l = _linear(norm(sub(x.args[1], x.args[0])))
    if l is None:
        return None
    k = l.get(None, 0)
    co = [v for q, v in l.items() if q is not None and v]
    pos, neg = all(v > 0 for v in co), all(v < 0 for v in co)
    if x.op == "lt":
        return True if pos and k > 0 else False if neg and k <= 0 else None
    if x.op == "le":
        return True if pos and k >= 0 else False if neg and k < 0 else None
    if x.op == "eq":
        return True if not co and k == 0 else False if (pos and k > 0) or (neg and k < 0) or (not co and k) else None
    return None


def _settle(t):
    """resolve the comparisons of positions"""
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op in ("lt", "le", "eq"):
                d = _decided(x)
                if d is not None:
                    m[x] = TRUE if d else FALSE
        t2 = norm(subst(t, m)) if m else norm(t)
        if t2 is t:
            break
        t = t2
    return t


def _pairs(t, i, j):
    """(condition, value) of the eight neighbours in a vector over them"""
    if not is_array(t):
        return [(TRUE, t)] * 8
    if t.op in TM.POINTWISE or t.op == "truth":
        cols = [_pairs(a, i, j) if isinstance(a, T) else None for a in t.args]
        if any(x is None and isinstance(a, T) for x, a in zip(cols, t.args)):
            return None
        out = []
        for k in range(8):
            cs = [x[k][0] for x in cols if x is not None]
            out.append((and_(*cs), rebuild_(t.op, [a if x is None else x[k][1] for x, a in zip(cols, t.args)])))
        return out
    if t.op == "idx":
        b, q = t.args
        if is_bool(q) and is_array(q):
            B, Q = _pairs(b, i, j), _pairs(q, i, j)
            if B is None or Q is None:
                return None
            return [(and_(x[0], y[0], truth_(y[1])), x[1]) for x, y in zip(B, Q)]
        if q.op == "tuple" and len(q.args) == 3 and full_slice(q.args[0]) and q.args[1] is I_ and q.args[2] is J_:
            return [(TRUE, cell(b, (C(k), i, j))) for k in range(8)]
    return None


def _p36_at(c, name, w, i, j, n, mask, g, val, rn, cn):
    near = []
    for di in (-1, 0, 1):
        for dj in (-1, 0, 1):
            if (di, dj) == (0, 0) or (rn == "first" and di < 0) or (rn == "last" and di > 0) or (cn == "first" and dj < 0) or \
                    (cn == "last" and dj > 0):
                continue
            near.append((norm(add(i, C(di))), norm(add(j, C(dj)))))
    gr = lambda n, ij: mk("idx", c.s(n), mk("tuple", *ij))
    wet = lambda ij: norm(lt(c.s("dry_depth"), gr("depth", ij)))
    me = (norm(i), norm(j))
    dry = not_(wet(me))
    clean = lambda t: _settle(subst(t, dict(zip(N, n))))
    m = clean(cell(mask, (i, j)))
    # which neighbours count
    bools = {wet(x): sym("$wet%d" % k, "b") for k, x in enumerate(near)}
    bools[wet(me)] = FALSE
    for x, v in list(bools.items()):
        for y in {not_(x), norm(not_(x))}:
            if y.op != "not":
                bools[y] = not_(v)

    def logic(t):
        t = clean(subst(t, {I_: i, J_: j}))
        t = subst(t, bools)
        m = {}
        for x in subterms(t):
            if x.op in ("lt", "le", "eq"):
                for k in (0, 1):
                    y = x.args[k]
                    if y.op == "sel" and all(num(z) is not None for z in y.args[1:]) and num(x.args[1 - k]) is not None:
                        f = lambda z: rebuild_(x.op, [z, x.args[1]] if k == 0 else [x.args[0], z])
                        m[x] = sel(y.args[0], f(y.args[1]), f(y.args[2]))
        return norm(subst(t, m) if m else t)
    parts = []
    for x in (g.args if g.op == "and" else (g,)):
        if x.op == "app" and x.args[0] == "any":
            p = _pairs(x.args[1], i, j)
            if p is None:
                return c.unk("flooding: %s" % name, w, "condition not recognised: %s" % show(x)[:80])
            parts.append([norm(and_(logic(a), logic(b))) for a, b in p])
        elif x.op in ("lt", "le") and x.args[1].op == "app" and x.args[1].args[0] in ("max", "amax", "nanmax") and len(x.args[1].args) == 2:
            p = _pairs(x.args[1].args[1], i, j)
            if p is None:
                return c.unk("flooding: %s" % name, w, "condition not recognised: %s" % show(x)[:80])
            parts.append([norm(and_(logic(a), logic(rebuild_(x.op, [x.args[0], b])))) for a, b in p])
        elif x.op == "app" and x.args[0] == "all":
            return c.bad("flooding at %s: exactly the wet neighbours above the bed flood the cell" % name, w,
                         "the cell is flooded only when all of them are above the bed")
        else:
            return c.unk("flooding: %s" % name, w, "condition not recognised: %s" % show(x)[:80])
    if len(parts) != 1:
        return c.unk("flooding: %s" % name, w, "condition not recognised")
    eta = gr("eta", me)
    want = {norm(and_(sym("$wet%d" % k, "b"), lt(eta, gr("stage", x)))): x for k, x in enumerate(near)}
    c.equal("flooding at %s: wet cells are left alone" % name, subst(subst(m, {norm(wet(me)): TRUE, norm(not_(wet(me))): FALSE}), {wet(me): TRUE, not_(wet(me)): FALSE}), FALSE, w)
    miss, unsure = [], None
    for k in range(len(near)):
        x = subst(subst(m, bools), {sym("$wet%d" % k, "b"): TRUE})
        try:
            r = implies(TRUE, x, [])
        except (Undecided, RecursionError):
            unsure, r = near[k], None
        if r is not None:
            miss.append(near[k])
    got = {x for x in parts[0] if x is not FALSE}
    sh = lambda s: "; ".join(show(x)[:90] for x in list(s)[:2])
    if any(opaque(x, mk("tuple", *want)) for x in got):
        return c.unk("flooding at %s" % name, w, sh(got))
    if unsure is not None and not miss:
        c.unk("flooding at %s: every dry cell with a wet neighbour is considered" % name, w, sh(unsure))
    elif miss:
        c.bad("flooding at %s: every dry cell with a wet neighbour is considered" % name, w,
              "a single wet neighbour at %s is not noticed" % (sh(miss[0])))
    else:
        c.ok("flooding at %s: every dry cell with a wet neighbour is considered" % name, w, "%d neighbours" % len(near))
    if got == set(want):
        c.ok("flooding at %s: exactly the wet neighbours above the bed flood the cell" % name, w, "%d neighbours" % len(near))
    else:
        c.bad("flooding at %s: exactly the wet neighbours above the bed flood the cell" % name, w,
              "condition lacks [%s], has in addition [%s]" % (sh(set(want) - got), sh(got - set(want))))
    if val.op == "app" and val.args[0] in ("max", "amax", "nanmax") and len(val.args) == 2:
        p = _pairs(val.args[1], i, j)
    else:
        p = None
    if p is None and val.op == "app" and val.args[0] in ("min", "mean", "median", "sum") and len(val.args) == 2:
        return c.bad("flooding at %s: the cell takes the highest surface of its wet neighbours" % name, w, "it takes their %s" % val.args[0])
    if p is None:
        leaves = [val]
        while any(x.op in ("max", "min") or x.op == "app" and x.args[0] in ("max", "min") for x in leaves):
            leaves = [z for x in leaves for z in ((x.args if x.op in ("max", "min") else x.args[1:]) if x.op in ("max", "min", "app") else (x,))]
        if leaves and all(x.op == "idx" and num(x.args[1]) is not None and _pairs(x.args[0], i, j) is not None for x in leaves):
            return c.bad("flooding at %s: the cell takes the highest surface of its wet neighbours" % name, w, "only some of them are looked at")
        return c.unk("flooding at %s: level" % name, w, show(val)[:80])
    got = {mk("tuple", logic(a), logic(b)) for a, b in p}
    got = {x for x in got if x.args[0] is not FALSE}
    want = {mk("tuple", sym("$wet%d" % k, "b"), norm(gr("stage", x))) for k, x in enumerate(near)}
    if got == want:
        c.ok("flooding at %s: the cell takes the highest surface of its wet neighbours" % name, w, "%d neighbours" % len(near))
    elif any(opaque(x, mk("tuple", *want)) for x in got):
        c.unk("flooding at %s: level" % name, w, sh(got))
    else:
        c.bad("flooding at %s: the cell takes the highest surface of its wet neighbours" % name, w,
              "lacks [%s], has in addition [%s]" % (sh(want - got), sh(got - want)))


RULES = {
    "P22": {"fns": [p22], "min": 15, "level": "other",
            "explain": "The weight vectors of the water pass and of both sediment routers are viewed at each of the nine choices: windows of the "
                       "padded grids are matched with the cell's neighbours (padding proved to repeat the edge, routing copies proved to follow "
                       "the depth), sums over neighbours are named by pointwise equality of their summands, and the result is compared with the "
                       "documented rule over all branch cases, for interior cells and the upstream row; the draw is matched with a cumulative "
                       "search over exactly these weights.",
            "bound": "the partition coefficient is taken to lie in [0, 1]; a flat-water configuration outside it raises an error in the model"},
    "P30": {"fns": [p30], "min": 28, "level": "other",
            "explain": "The vectorised water loop is viewed one parcel at a time (maps over parcels are inlined, masked assignments become "
                       "conditions) and its transition compared with the required one by cases: first steps, ordinary move, return to a visited "
                       "cell; the relocation target is bounded by interval reasoning on its row and column; sediment loops: continuation "
                       "condition implies not on an edge cell and below the step limit; weights above the upstream row are zero."},
    "P32": {"fns": [p32], "min": 17, "level": "other",
            "explain": "The updates one pass of the water loop makes to the accumulated direction and magnitude are collected as per-parcel "
                       "additions (cell, amount, condition) from the scatter loops, and compared for each of the nine directions and for stopped "
                       "parcels; the conversion to discharge and the mixing with the previous field are compared cell-wise."},
    "P33": {"fns": [p33], "min": 20, "level": "other",
            "explain": "The accumulation over parcel paths is taken from its loops: guard of a parcel's contribution, direction and extent of the "
                       "walk back, and the transition of elevation, rise and shoreline flag at one path cell are compared with the documented "
                       "ones; surface, smoothing pass (through the nine-cell neighbourhood view) and mixing are compared cell-wise.",
            "bound": "steps of a path that stay in the same cell are not compared"},
    "P36": {"fns": [p36], "min": 38, "level": "other",
            "explain": "The pass over shore cells is viewed at one visited cell; the stacked neighbour arrays are evaluated at each of their eight "
                       "entries for the nine kinds of position (interior, sides, corners), and the pairs (neighbour is wet, neighbour surface) "
                       "used by the condition and by the maximum are compared with the neighbours on the grid. Values changed by the pass "
                       "may not be read by it."},
}
