"""Nine-cell neighbourhoods: windows of padded grids, vectors over the neighbours, sums over them.

A vector over the neighbours is viewed at one arbitrary neighbour $k; a sum over the neighbours becomes a named
scalar, and two sums get the same name when their summands are equal at every neighbour.
"""
from .terms import *      # noqa
from .terms import is_array, is_bool, rebuild, POINTWISE
from .cells import cell, N

K = sym("$k", "s")
NINE = (C(9),)


def pad_base(P):
    """the grid a padded grid was made from; the candidate only, see is_edge_pad"""
    if P.op == "aapp" and P.args[0] == "pad":
        return P.args[1]
    t = P
    while t.op == "store":
        i = t.args[1]
        if i.op == "tuple" and len(i.args) == 2 and all(a.op == "slice" and num(a.args[0]) == 1 and num(a.args[1]) == -1
                                                         for a in i.args):
            return t.args[2]
        t = t.args[0]
    return None


def is_edge_pad(P, base):
    """None if P is base with its edge values repeated once on each side, else the first cell that differs"""
    if P.op == "aapp" and P.args[0] == "pad":
        a = [x for x in P.args[2:]]
        ok = len(a) == 2 and num(a[0]) == 1 and (a[1] is C("edge") or (a[1].op == "kv" and a[1].args[1] is C("edge")))
        return None if ok else "not an edge pad of width one"
    sh = (add(N[0], C(2)), add(N[1], C(2)))
    big = [("p", sub(n, C(3)), 1) for n in N]
    i, j = sym("$pi", "s"), sym("$pj", "s")

    def pos(x, n):
        # (index in the padded grid, index in the grid, facts)
        return [(ZERO, ZERO, []), (add(n, ONE), sub(n, ONE), []), (ONE, ZERO, []), (n, sub(n, ONE), []),
                (add(x, ONE), x, [("p", x, 1), ("p", sub(sub(n, ONE), x), 1)])]
    for pi, bi, fi in pos(i, N[0]):
        for pj, bj, fj in pos(j, N[1]):
            got = cell(P, (pi, pj), sh)
            want = cell(base, (bi, bj))
            try:
                r = decide_equal(_near(got), _near(want), fi + fj + big)
            except Undecided:
                return "undecided"
            if r is not None:
                return "at (%s, %s): %s" % (show(pi), show(pj), show(r[1])[:80])
    return None


def _near(t):
    """indices n-1 and -1 mean the same cell"""
    m = {}
    for x in subterms(t):
        if x.op == "idx" and x.args[1].op == "tuple" and len(x.args[1].args) == 2:
            a = []
            for y, n in zip(x.args[1].args, N):
                if num(y) is not None and num(y) < 0:
                    y = add(n, y)
                a.append(norm(y))
            if tuple(a) != x.args[1].args:
                m[x] = mk("idx", x.args[0], mk("tuple", *a))
    return subst(t, m) if m else t


class Hood:
    """rewrites windows of padded grids around one cell into vectors named nb.<grid>"""

    def __init__(self, ij, alias=None):
        self.ij = ij
        self.alias = alias or {}          # padded grid term -> grid it mirrors (an invariant shown elsewhere)
        self.names = {}                   # grid term -> name given by the rule
        self.problems = []
        self.unclear = []
        self.seen = {}

    def vec(self, grid):
        return sym("nb.%s" % self.names.get(grid, "#%d" % grid.id), "a")

    def name(self, grid, nm):
        self.names[grid] = nm

    def rewrite(self, t):
        m = {}
        for x in subterms(t):
            if x.op == "aapp" and x.args[0] in ("ravel", "flatten") and len(x.args) == 2 and x.args[1].op == "idx":
                g = self.window(x.args[1])
                if g is not None:
                    m[x] = self.vec(g)
        t = subst(t, m)
        m = {}
        for x in subterms(t):
            if x.op == "idx" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and is_array(x.args[0]) and \
                    x.args[0] in self.names and all(norm(a) is norm(b) for a, b in zip(x.args[1].args, self.ij)):
                m[x] = mk("idx", self.vec(x.args[0]), C(4))
        return subst(t, m)

    def window(self, w):
        P, I = w.args
        if I.op != "tuple" or len(I.args) != 2 or not all(a.op == "slice" for a in I.args):
            return None
        if P in self.alias:
            base = self.alias[P]
        else:
            base = pad_base(P)
            if base is None:
                self.unclear.append("window of %s" % show(P)[:60])
                return None
            if P not in self.seen:
                self.seen[P] = is_edge_pad(P, base)
            if self.seen[P] is not None:
                (self.unclear if self.seen[P] == "undecided" else self.problems).append(
                    "the padded copy of %s is not %s with its edge repeated: %s" % (show(base)[:40], show(base)[:40], self.seen[P]))
                return None
        for a, x, n in zip(I.args, self.ij, "rows columns".split()):
            lo, hi, st = a.args
            if lo is NONE or hi is NONE or st is not NONE:
                return None
            d, e = norm(sub(lo, x)), norm(sub(hi, lo))
            if num(d) is None or num(e) is None:
                self.unclear.append("window %s" % show(a))
                return None
            if num(d) != 0 or num(e) != 3:
                self.problems.append("%s window of %s is %s for cell %s: not the cell and its neighbours" % (
                    n, show(base)[:40], show(a)[:60], show(x)[:30]))
                return None
        return base


def at(t, k=K):
    t = cell(t, (k,), NINE)
    m = {x: mk("idx", x.args[0], x.args[1].args[0]) for x in subterms(t)
         if x.op == "idx" and x.args[1].op == "tuple" and len(x.args[1].args) == 1}
    return subst(t, m) if m else t


def elements(t):
    """idx(vector expression, constant) evaluated at that neighbour"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if not x.args:
                r = x
            else:
                na = [go(a) for a in x.args]
                r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
                if r.op == "idx" and num(r.args[1]) is not None and r.args[0].op in POINTWISE | {"store"} and is_array(r.args[0]):
                    r = at(r.args[0], r.args[1])
            memo[x] = r
        return r
    return go(t)


class Sums:
    """names for sums over the neighbours"""

    def __init__(self, facts=()):
        self.table = []
        self.facts = list(facts)
        self.undecided = False

    def of(self, e):
        """the sum of a summand viewed at $k"""
        s = ONE
        e = numeric1(e)
        for x in sorted((x for x in subterms(e) if x.op == "sel"), key=lambda x: x.id):
            if x.args[0].op != "c" and K not in subterms(x.args[0]):
                return sel(x.args[0], self.of(subst(e, {x.args[0]: TRUE})), self.of(subst(e, {x.args[0]: FALSE})))
        for x in sorted((y for x in subterms(e) if x.op in ("and", "or") for y in x.args
                         if y.op in ("lt", "le", "eq", "truth", "not")), key=lambda x: x.id):
            x = x.args[0] if x.op == "not" else x
            if x.op in ("lt", "le", "eq", "truth") and K not in subterms(x):
                return sel(x, self.of(subst(e, {x: TRUE})), self.of(subst(e, {x: FALSE})))
        for _ in range(6):
            if e.op == "sel" and e.args[2] is ZERO and e.args[1] is not ONE and K not in subterms(e.args[1]):
                s, e = mul(s, e.args[1]), sel(e.args[0], ONE, ZERO)
            elif e.op == "sel" and e.args[1] is ZERO and e.args[2] is not ONE and K not in subterms(e.args[2]):
                s, e = mul(s, e.args[2]), sel(e.args[0], ZERO, ONE)
            elif e.op == "div" and K not in subterms(e.args[1]):
                s, e = div(s, e.args[1]), e.args[0]
            else:
                break
        if e is ZERO:
            return ZERO
        for x, n in self.table:
            try:
                if decide_equal(e, x, self.facts) is None:
                    return mul(s, n)
            except Undecided:
                self.undecided = True
        # a sum of zeros and ones is a count
        n = sym(("$count%d" if indicator(e) else "$sum%d") % len(self.table), "s")
        self.table.append((e, n))
        return mul(s, n)

    def masked(self, t):
        """a sum (mean) over the entries a mask keeps is one over all entries, zero where it does not keep them"""
        m = {}
        for x in subterms(t):
            if x.op in ("app", "aapp") and x.args[0] in ("sum", "mean") and len(x.args) == 2:
                ks = [y for y in subterms(x.args[1]) if y.op == "idx" and is_bool(y.args[1]) and is_array(y.args[1])]
                if not ks or any(y.args[1] is not ks[0].args[1] for y in ks):
                    continue
                k = ks[0].args[1]
                e = sel(k, subst(x.args[1], {y: y.args[0] for y in ks}), ZERO)
                n = mk(x.op, "sum", e)
                m[x] = n if x.args[0] == "sum" else div(n, mk(x.op, "sum", sel(k, ONE, ZERO)))
        return subst(t, m) if m else t

    def rewrite(self, t):
        """replace every sum over a nine-vector, innermost first"""
        t = self.masked(t)
        for _ in range(12):
            ss = [x for x in subterms(t) if x.op in ("app", "aapp") and x.args[0] == "sum" and len(x.args) == 2]
            if not ss:
                return t
            inner = [x for x in ss if not any(y is not x and y in ss for y in subterms(x))]
            if not inner:
                return t
            t = subst(t, {x: self.of(at(elements(x.args[1]))) for x in inner})
        return t


def indicator(e):
    if e.op == "sel":
        return indicator(e.args[1]) and indicator(e.args[2])
    return e is ONE or e is ZERO


def numeric1(e):
    if is_bool(e):
        if e is TRUE:
            return ONE
        if e is FALSE:
            return ZERO
        return sel(e, ONE, ZERO)
    return e
