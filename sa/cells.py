"""Cell view of array terms: the value an array expression has at one cell.

cell(t, (i, j)) pushes the index through element-wise operations, stores at rows, columns, slices and index
arrays, and sub-array selections.  What cannot be resolved stays as an opaque element of the array term.
"""
from .terms import *      # noqa
from .terms import POINTWISE, is_array, is_bool, rebuild

N = (sym("$n0", "s"), sym("$n1", "s"))       # number of rows and columns


def hit(I, x, n):
    """condition that index component I (of a store) selects position x; and the position inside the selection"""
    if I.op == "slice":
        lo, hi, st = I.args
        if st is not NONE and num(st) != 1:
            return None, None
        conds = []
        off = x
        if lo is not NONE:
            lo_ = _pos(lo, n)
            conds.append(le(lo_, x))
            off = sub(x, lo_)
        if hi is not NONE:
            conds.append(lt(x, _pos(hi, n)))
        return and_(*conds), off
    if is_array(I):
        return mk("app", "in", x, I), ("same", I)
    return eq(_pos(I, n), x), None


def _pos(k, n):
    v = num(k)
    if v is not None and v < 0:
        return add(n, k)
    return k


_memo = {}


def dims(rank, shape=N):
    """lengths of the axes of an array: grids are N, stacks of grids over the eight neighbours 8 x N"""
    if len(shape) == rank:
        return shape
    return {2: N, 3: (C(8),) + N}.get(rank, shape)


def cell(t, ij, shape=N):
    shape = dims(len(ij), shape)
    k = (t, ij, shape)
    r = _memo.get(k)
    if r is None:
        r = _cell(t, ij, shape)
        _memo[k] = r
    return r


def _cell(t, ij, shape):
    if not isinstance(t, T) or not is_array(t):
        return t
    op = t.op
    if op in POINTWISE or op == "truth":
        return rebuild(op, [cell(a, ij, shape) if isinstance(a, T) else a for a in t.args])
    if op == "store":
        base, I, v = t.args
        parts = I.args if I.op == "tuple" else (I,)
        if len(parts) > len(ij) or any(a.op == "flat" for a in parts):
            return mk("idx", t, mk("tuple", *ij))
        conds, locs = [], []
        for a, x, n in zip(parts, ij, shape):
            c, l = hit(a, x, n)
            if c is None:
                return mk("idx", t, mk("tuple", *ij))
            conds.append(c)
            if l is not None:
                locs.append(l)
        for x in ij[len(parts):]:
            locs.append(x)
        val = elem(v, tuple(locs), I, ij, shape, base)
        return sel(and_(*conds), val, cell(base, ij, shape))
    if op == "idx":
        base, I = t.args
        f = widen(I, ij, shape)
        if f is not None and is_array(base):
            return cell(base, f, shape)
        return mk("idx", t, mk("tuple", *ij))
    if op == "aapp" and t.args[0] == "sum" and len(ij) == 2 and len(t.args) == 3 and t.args[2].op == "kv" and \
            t.args[2].args[0] in ("axis", C("axis")) and num(t.args[2].args[1]) == 0 and rank(t.args[1]) == 3:
        r = ZERO
        for k in range(8):
            r = add(r, cell(t.args[1], (C(k),) + ij))
        return r
    if op == "aapp" and t.args[0] == "arange" and len(ij) >= 1:
        a = [x for x in t.args[1:]]
        if len(a) == 1:
            return ij[-1]
        if len(a) == 2 or num(a[2]) == 1:
            return add(a[0], ij[-1])
    if op == "aapp" and t.args[0] in ("meshgrid0", "meshgrid1") and len(ij) == 2:
        k = int(t.args[0][-1])
        return cell(t.args[1 + k], (ij[1 - k],))
    if op == "aapp" and t.args[0] == "reshape" and t.args[1].op == "comp" and len(t.args) == 3:
        v, cond, *gens = t.args[1].args
        sh = t.args[2]
        if cond is TRUE and sh.op == "tuple" and len(sh.args) == len(gens) == len(ij) and all(
                g.args[1].op == "app" and g.args[1].args[0] == "range" and num(g.args[1].args[1]) == 0 and
                g.args[1].args[2] is n and num(g.args[1].args[3]) == 1 for g, n in zip(gens, sh.args)):
            return subst(v, {mk("elem", g.args[0], "i", "s"): x for g, x in zip(gens, ij)})
    return mk("idx", t, mk("tuple", *ij))


def rank(t):
    """number of axes, where it shows"""
    while t.op == "store":
        if t.args[1].op == "tuple" and not any(a.op in ("flat", "where1") for a in t.args[1].args):
            n = len(t.args[1].args)
            if n > 2:
                return n
        t = t.args[0]
    if t.op in POINTWISE or t.op == "truth":
        r = [rank(a) for a in t.args if isinstance(a, T) and is_array(a)]
        return max(r, default=None, key=lambda x: x or 0)
    if t.op == "aapp" and t.args[0] in ("zeros", "ones", "empty", "full") and t.args[1].op == "tuple":
        return len(t.args[1].args)
    return None


def root(t):
    while t.op in ("store", "idx"):
        t = t.args[0]
    return t


def widen(I, ij, shape=N, base=N):
    """full index of element ij of base[I]"""
    parts = I.args if I.op == "tuple" else (I,)
    if any(a.op == "flat" for a in parts):
        return None
    n = dims(len(parts) + len(ij) - sum(1 for a in parts if a.op == "slice" or is_array(a)), base)
    n = list(n) + [sym("$n%d" % k, "s") for k in range(len(n), len(parts))]
    out = []
    rest = list(ij)
    for k, a in enumerate(parts):
        if a.op == "slice":
            if not rest or (a.args[2] is not NONE and num(a.args[2]) != 1):
                return None
            x = rest.pop(0)
            lo = a.args[0]
            if lo is not NONE:
                x = add(_pos(lo, n[k]), x)
            out.append(x)
        elif is_array(a):
            if not rest or is_bool(a):
                return None
            out.append(idx(a, rest.pop(0)))
        else:
            out.append(_pos(a, n[k]))
    return tuple(out + rest)


def elem(v, locs, I, ij, shape, base=None):
    """element of the stored value that lands in cell ij"""
    if not is_array(v):
        return v
    if v.op in POINTWISE or v.op == "truth":
        return rebuild(v.op, [elem(a, locs, I, ij, shape, base) if isinstance(a, T) else a for a in v.args])
    if v.op == "idx":
        if v.args[1] is I:
            return cell(v.args[0], ij, shape)
        if base is not None and root(v) is root(base) and not any(isinstance(x, tuple) for x in locs):
            # one part of the array copied into another part of it
            f = widen(v.args[1], locs, shape, shape)
            if f is not None:
                return cell(v.args[0], f, shape)
        pi = I.args if I.op == "tuple" else (I,)
        pv = v.args[1].args if v.args[1].op == "tuple" else (v.args[1],)
        same = [a for a in pi if is_array(a) and a.op != "slice"]
        if same:
            # the same index arrays select source and target
            out = []
            ls = [x for x, a in zip(ij, pi) if a.op == "slice" or is_array(a)]
            it = iter(ls)
            for k, a in enumerate(pv):
                if a.op == "slice" or is_array(a):
                    x = next(it, None)
                    if x is None or (is_array(a) and a.op != "slice" and a not in same):
                        return mk("idx", v, mk("tuple", *ij))
                    out.append(x)
                else:
                    out.append(a)
            return cell(v.args[0], tuple(out), shape)
    if any(isinstance(x, tuple) for x in locs):
        return mk("idx", v, mk("tuple", *ij))
    if len(locs) == len(ij) or v.op == "idx":
        return cell(v, locs, shape)
    return mk("idx", v, mk("tuple", *locs))
