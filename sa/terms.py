"""Hash-consed value-number terms, their normal form and the equality test.

A term is the value number of an expression of the analysed program: two
program expressions with the same term compute the same value whatever the
inputs are.  Nothing here evaluates program code.
"""
from fractions import Fraction
import math

_table = {}


class T:
    __slots__ = ("op", "args", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_count = [0]


def _ckey(a):
    if isinstance(a, T):
        return a
    return (type(a).__name__, a)


def mk(op, *args):
    key = (op,) + tuple(_ckey(a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _count[0] += 1
        t.id = _count[0]
        _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def C(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return mk("c", v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mk("c", repr(v) + "#float")
        v = Fraction(repr(v))
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    if isinstance(v, (int, Fraction)):
        return mk("c", v)
    if v is Ellipsis:
        return mk("c", "...#ellipsis")
    if isinstance(v, bytes):
        return mk("c", "b:" + repr(v))
    raise TypeError("const %r" % (v,))


TRUE = C(True)
FALSE = C(False)
NONE = C(None)
ZERO = C(0)
ONE = C(1)
UNDEF = mk("undef")
INF = C(float("inf"))


def sym(name, kind="s"):
    """kind: 's' scalar, 'a' array, 'b' boolean scalar, 'm' boolean array"""
    return mk("sym", name, kind)


def unk(reason, *args):
    return mk("unk", reason, *args)


def isc(t):
    return isinstance(t, T) and t.op == "c"


def isnum(t):
    return (isinstance(t, T) and t.op == "c"
            and isinstance(t.args[0], (int, Fraction))
            and not isinstance(t.args[0], bool))


def cval(t):
    return t.args[0]


def num(t):
    """numeric value of a constant (True/False count as 1/0), else None"""
    if isinstance(t, T) and t.op == "c" and isinstance(t.args[0], (int, Fraction)):
        return Fraction(int(t.args[0])) if isinstance(t.args[0], bool) else Fraction(t.args[0])
    return None


POINTWISE = {"add", "mul", "div", "pow", "lt", "le", "eq", "and", "or", "not",
             "sel", "min", "max", "abs", "floordiv", "mod", "pw"}
BOOLOPS = {"lt", "le", "eq", "and", "or", "not", "truth"}

_arr = {}


def is_array(t):
    r = _arr.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "sym" or op == "phi" or op == "lout" or op == "elem":
        r = t.args[-1] in ("a", "m")
    elif op in POINTWISE or op == "truth":
        r = any(is_array(a) for a in t.args if isinstance(a, T))
    elif op == "store":
        r = is_array(t.args[0]) or True
    elif op == "idx":
        r = is_array(t.args[0]) and _idx_multi(t.args[1])
    elif op in ("arr", "aapp"):
        r = True
    else:
        r = False
    _arr[t] = r
    return r


def _idx_multi(i):
    if i.op == "tuple":
        return any(_idx_multi(a) for a in i.args)
    if i.op == "slice":
        return True
    if i.op == "c":
        return False
    if i.op in ("arr", "where1", "aapp"):
        return True
    if i.op == "flat":
        return _idx_multi(i.args[0])
    return is_array(i)


_isb = {}


def is_bool(t):
    r = _isb.get(t)
    if r is not None:
        return r
    if t.op in BOOLOPS:
        r = True
    elif t.op == "c":
        r = isinstance(t.args[0], bool)
    elif t.op in ("sym", "phi", "lout", "elem"):
        r = t.args[-1] in ("b", "m")
    elif t.op == "sel":
        r = is_bool(t.args[1]) and is_bool(t.args[2])
    elif t.op == "idx":
        r = is_bool(t.args[0])
    elif t.op == "store":
        r = is_bool(t.args[0])
    elif t.op == "app":
        r = t.args[0] in ("any", "all", "isnan", "isfinite", "in", "isinstance",
                          "hasattr", "callable", "isinf")
    elif t.op == "arr":
        r = False
    else:
        r = False
    _isb[t] = r
    return r


# ------------------------------------------------------- smart constructors
def add(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return C(x + y)
    if text(a) or text(b):
        return concat(a, b)
    if x == 0:
        return b
    if y == 0:
        return a
    return mk("add", a, b)


def text(t):
    """a term that is known to be a string"""
    return t.op == "c" and isinstance(t.args[0], str) or t.op == "app" and t.args[0] in ("concat", "str")


def concat(*ts):
    """text joined in this order; str() around a part changes nothing"""
    out = []
    for t in ts:
        for p in t.args[1:] if t.op == "app" and t.args[0] == "concat" else (t,):
            if p.op == "app" and p.args[0] == "str" and len(p.args) == 2:
                p = p.args[1]
            if out and out[-1].op == "c" and p.op == "c" and isinstance(cval(out[-1]), str) and isinstance(cval(p), str):
                out[-1] = C(cval(out[-1]) + cval(p))
            elif not (p.op == "c" and cval(p) == ""):
                out.append(p)
    if not out:
        return C("")
    return mk("app", "concat", *out) if len(out) > 1 or not text(out[0]) else out[0]


def neg(a):
    return mul(C(-1), a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return C(x * y)
    if x == 1:
        return b
    if y == 1:
        return a
    if x == 0 or y == 0:
        return ZERO
    return mk("mul", a, b)


def div(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None and y != 0:
        return C(x / y)
    if y == 1:
        return a
    if x == 0:
        return ZERO
    return mk("div", a, b)


def power(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None and y.denominator == 1 and abs(y) <= 64 and (x != 0 or y >= 0):
        return C(x ** int(y))
    if y == 1:
        return a
    if y == 0:
        return ONE
    return mk("pow", a, b)


def sel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return sel(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op == "sel" and a.args[0] is c:
        a = a.args[1]
        if a is b:
            return a
    if b.op == "sel" and b.args[0] is c:
        b = b.args[2]
        if a is b:
            return a
    if a is c:
        a = TRUE
    if b is c:
        b = FALSE
    if c.op in ("lt", "le") and not isc(a) + isc(b) == 2:
        if a is c.args[1] and b is c.args[0]:
            return tmax(b, a)
        if a is c.args[0] and b is c.args[1]:
            return tmin(a, b)
    if is_bool(a) and is_bool(b) and (isc(a) or isc(b)):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    return mk("sel", c, a, b)


def truth(t):
    """python truth value of a term, as a boolean term"""
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, str) and v.endswith("#float"):
            return TRUE
        return TRUE if v else FALSE
    if is_bool(t):
        return t
    if t.op == "tuple" or t.op == "list":
        return TRUE if t.args else FALSE
    if t.op == "sel":
        return sel(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == "undef":
        return FALSE
    if t.op in ("obj", "fn"):
        return TRUE
    if t.op == "dict":
        if any(isinstance(x, T) and x.op == "kv" and len(x.args) == 3 and x.args[1] is TRUE for x in t.args):
            return TRUE
        if len(t.args) == 1 and (t.args[0] is None or t.args[0] is NONE):
            return FALSE
    if t.op in ("mul", "abs", "max", "min") or t.op in ("add", "aapp", "idx", "upd", "store") and is_array(t) and _counts(t):
        return not_(eq(t, ZERO))
    return mk("truth", t)


def _counts(t):
    """an array of numbers, as far as its form tells"""
    return t.op == "add" or t.op == "aapp" and t.args[0] in ("sum", "abs", "cumsum", "count_nonzero")


def not_(t):
    t = truth(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt":
        return mk("le", t.args[1], t.args[0])
    if t.op == "le":
        return mk("lt", t.args[1], t.args[0])
    return mk("not", t)


def _nary(op, ts, unit, zero):
    out = []
    seen = set()
    stack = list(ts)
    while stack:
        t = truth(stack.pop(0))
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            stack = list(t.args) + stack
            continue
        if t in seen:
            continue
        if not_(t) in seen:
            return zero
        seen.add(t)
        out.append(t)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk(op, *out)


def and_(*ts):
    return _nary("and", ts, TRUE, FALSE)


def or_(*ts):
    return _nary("or", ts, FALSE, TRUE)


def lt(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return TRUE if x < y else FALSE
    if a is b:
        return FALSE
    if a is INF:
        return FALSE
    if b is INF and x is not None:
        return TRUE
    return mk("lt", a, b)


def le(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return TRUE if x <= y else FALSE
    if a is b:
        return TRUE
    if a is INF and y is not None:
        return FALSE
    if b is INF:
        return TRUE
    return mk("le", a, b)


_VALUEOPS = ("obj", "fn", "arr", "tuple", "list", "dict")


def eq(a, b):
    if a is b:
        return TRUE
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return TRUE if x == y else FALSE
    if a.op == "c" and b.op == "c":
        return FALSE
    if a.op == "fn" and b.op == "fn" and str(a.args[0]).startswith("ext:builtins.") and \
            str(b.args[0]).startswith("ext:builtins."):
        return FALSE
    if a.op == "c":
        a, b = b, a
    if b is TRUE and is_bool(a):
        return a
    if b is FALSE and is_bool(a):
        return not_(a)
    if b is NONE and (a.op in _VALUEOPS or a.op in BOOLOPS or a.op in
                      ("add", "mul", "div", "pow", "min", "max", "abs", "store", "undef")):
        return FALSE
    if b is NONE and a.op == "app" and a.args[0] in ("str", "concat", "pathjoin", "fmt", "int"):
        return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(p, q) for p, q in zip(a.args, b.args)])
    if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] == "set" and \
            all(x.op == "c" for x in a.args[1:] + b.args[1:]):
        return TRUE if set(a.args[1:]) == set(b.args[1:]) else FALSE
    if a.op == "sel" and b.op == "c":
        return sel(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if a.id > b.id and b.op != "c":
        a, b = b, a
    return mk("eq", a, b)


def tmin(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return C(min(x, y))
    if a is b:
        return a
    return mk("min", a, b)


def tmax(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return C(max(x, y))
    if a is b:
        return a
    return mk("max", a, b)


def tabs(a):
    x = num(a)
    if x is not None:
        return C(abs(x))
    return mk("abs", a)


def app(name, *args):
    return mk("app", name, *args)


def pw(name, *args):
    """pointwise application of an uninterpreted function"""
    return mk("pw", name, *args)


# ---------------------------------------------------------------- indexing
def _scalar_index(i):
    return not _idx_multi(i)


def full_slice(i):
    if i.op == "slice":
        return all(a is NONE for a in i.args)
    if i.op == "tuple":
        return bool(i.args) and all(full_slice(a) for a in i.args)
    return i is C(Ellipsis)


_idxmemo = {}


def idx(x, i):
    k = (x, i)
    r = _idxmemo.get(k)
    if r is None:
        r = _idx(x, i)
        _idxmemo[k] = r
    return r


def _idx(x, i):
    if full_slice(i):
        return x
    if i.op == "where1":
        i = i.args[0]
    op = x.op
    if op == "c" and not isinstance(cval(x), str):
        return x
    if op in ("tuple", "list", "arr"):
        n = num(i)
        if n is not None and n.denominator == 1 and -len(x.args) <= n < len(x.args):
            return x.args[int(n)]
        if i.op == "tuple" and i.args and all(num(q) is not None for q in i.args):
            r = x
            for q in i.args:
                r = idx(r, q)
            return r
        if i.op == "slice" and op != "arr":
            b = [None if a is NONE else num(a) for a in i.args]
            if all(a is NONE or num(a) is not None for a in i.args):
                b = [None if q is None else int(q) for q in b]
                return mk(op, *x.args[slice(*b)])
        return mk("idx", x, i)
    if op in POINTWISE and is_array(x):
        args = [idx(a, i) if (isinstance(a, T) and is_array(a)) else a for a in x.args]
        return rebuild(op, args)
    if op == "truth" and is_array(x):
        return truth(idx(x.args[0], i))
    if op == "sel" and x.args[1].op in ("tuple", "list") and x.args[2].op in ("tuple", "list"):
        return sel(x.args[0], idx(x.args[1], i), idx(x.args[2], i))
    if op == "store":
        o, j, v = x.args
        if i is j:
            return v
        if _scalar_index(i) and _scalar_index(j):
            e = eq(i, j)
            if e is TRUE:
                return v
            if e is FALSE:
                return idx(o, i)
            return sel(e, v, idx(o, i))
        if disjoint(i, j):
            return idx(o, i)
        return mk("idx", x, i)
    if op == "idx" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and full_slice(x.args[1].args[1]) and \
            not _idx_multi(x.args[1].args[0]) and (i.op == "slice" or not _idx_multi(i)) and i.op not in ("tuple", "flat"):
        return idx(x.args[0], mk("tuple", x.args[1].args[0], i))
    if op == "sym" and x.args[1] in ("s", "b") and (is_bool(i) and is_array(i)):
        return x
    return mk("idx", x, i)


def disjoint(i, j):
    """True when two index terms certainly select different cells."""
    ii = i.args if i.op == "tuple" else (i,)
    jj = j.args if j.op == "tuple" else (j,)
    for a, b in zip(ii, jj):
        x, y = num(a), num(b)
        if x is not None and y is not None:
            if x != y and x >= 0 and y >= 0:
                return True
            if x != y and x < 0 and y < 0:
                return True
            continue
    return False


def rebuild(op, args):
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "pow":
        return power(*args)
    if op == "sel":
        return sel(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op == "truth":
        return truth(*args)
    if op == "min":
        r = args[0]
        for a in args[1:]:
            r = tmin(r, a)
        return r
    if op == "max":
        r = args[0]
        for a in args[1:]:
            r = tmax(r, a)
        return r
    if op == "abs":
        return tabs(*args)
    if op == "idx":
        return idx(*args)
    if op == "store":
        return store(*args)
    if op == "app" and args[0] == "concat":
        return concat(*args[1:])
    return mk(op, *args)


def unidx(v, mask):
    """v evaluated under A[mask] = v, made pointwise: idx(X, mask) -> X."""
    memo = {}

    def go(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "idx" and (t.args[1] is mask):
            r = t.args[0]
        elif t.op in POINTWISE or t.op == "truth":
            r = rebuild(t.op, [go(a) for a in t.args])
        else:
            r = t
        memo[t] = r
        return r
    return go(v)


def store(x, i, v):
    if full_slice(i):
        return v
    if i.op == "where1":
        i = i.args[0]
    if is_bool(i) and is_array(i):
        return sel(i, unidx(v, i), x)
    if x.op == "store" and x.args[1] is i:
        x = x.args[0]
    if x.op == "sel" and False:
        pass
    return mk("store", x, i, v)


def subst(t, m, memo=None):
    """Replace sub-terms (dict term->term), rebuilding with simplification."""
    if memo is None:
        memo = {}

    def go(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif not t.args:
            r = t
        else:
            na = [go(a) for a in t.args]
            if all(p is q for p, q in zip(na, t.args)):
                r = t
            else:
                r = rebuild(t.op, na)
        memo[t] = r
        return r
    return go(t)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen


_unkm = {}


def has_unknown(t):
    r = _unkm.get(t)
    if r is None:
        r = any(x.op == "unk" for x in subterms(t))
        _unkm[t] = r
    return r


def syms(t):
    return {x for x in subterms(t) if x.op == "sym"}


# ------------------------------------------------------------ normal form
# polynomial: dict {monomial: Fraction}, monomial = tuple of (atom, Fraction exp)
_normm = {}


def _pmul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for a, e in m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda z: z[0].id))
            v = out.get(m, 0) + c1 * c2
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
    return out


def _padd(p, q, k=1):
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + k * c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


_polym = {}


def poly(t):
    r = _polym.get(t)
    if r is None:
        r = _poly(t)
        _polym[t] = r
    return r


def pconst(c):
    c = Fraction(c)
    return {(): c} if c != 0 else {}


def patom(a, e=1):
    return {((a, Fraction(e)),): Fraction(1)}


def _poly(t):
    n = num(t)
    if n is not None:
        return pconst(n)
    op = t.op
    if op == "add":
        return _remainder(_padd(poly(t.args[0]), poly(t.args[1])))
    if op == "mul":
        return _pmul(poly(t.args[0]), poly(t.args[1]))
    if op == "div":
        p, q = poly(t.args[0]), poly(t.args[1])
        if not p:
            return {}
        if q:
            return _pmul(p, _pinv(q))
        return patom(mk("div", norm(t.args[0]), ZERO))
    if op == "pow":
        b, e = t.args
        pe = poly(e)
        if list(pe.keys()) in ([], [()]):
            ev = pe.get((), Fraction(0))
            return _ppow(poly(b), ev, b)
        ne = from_poly(pe)
        pb = poly(b)
        if not pb:
            return patom(mk("pow", norm(b), ne))
        # (k * prod a_i^n_i) ** e  = k**e * prod a_i ** (n_i e)   (positive reals)
        if len(pb) == 1:
            (m, c), = pb.items()
            out = {(): Fraction(1)}
            if c != 1:
                out = _pmul(out, patom(mk("pow", C(c), ne)))
            for a, k in m:
                base, inner = a, ne
                if a.op == "pow":
                    base = a.args[0]
                    inner = from_poly(_pmul(poly(a.args[1]), poly(ne)))
                neg_ = k < 0
                kk = -k if neg_ else k
                ee = from_poly({mm: cc * kk for mm, cc in poly(inner).items()}) if kk != 1 else inner
                out = _pmul(out, patom(mk("pow", base, ee), -1 if neg_ else 1))
            return out
        return patom(mk("pow", from_poly(pb), ne))
    return patom_of(norm(t))


def _remainder(p):
    """k - n * (k // n)  is  k mod n"""
    for m, c in list(p.items()):
        fd = [a for a, e in m if a.op == "floordiv" and e == 1]
        if len(fd) != 1:
            continue
        k, n = fd[0].args
        q = _pmul(poly(n), patom(fd[0]))
        if m not in q:
            continue
        s = -c / q[m]
        if any(p.get(x) != -s * y for x, y in q.items()) or \
                any(p.get(x) != s * y for x, y in poly(k).items()) or not poly(k):
            continue
        d = _padd(q, poly(k), -1)
        d = _padd(d, patom(norm(mk("mod", k, n))))
        return _remainder(_padd(p, d, s))
    return p


def patom_of(nt):
    n = num(nt)
    if n is not None:
        return pconst(n)
    if nt.op in ("add", "mul", "div", "pow"):
        return poly(nt)
    return patom(nt)


def _pinv(q):
    if len(q) == 1:
        (m, c), = q.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    # factor out content: make leading coefficient 1
    nt = from_poly(q)
    lead = _lead(q)
    if lead != 1:
        q2 = {m: c / lead for m, c in q.items()}
        return {m: c / lead for m, c in patom(mk("inv", from_poly(q2))).items()}
    return patom(mk("inv", nt))


def _lead(q):
    m = min(q.keys(), key=lambda m: tuple((a.id, e) for a, e in m))
    return q[m]


def _ppow(p, e, b):
    if e == 0:
        return pconst(1)
    if not p:
        return {} if e > 0 else patom(mk("pow", ZERO, C(e)))
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return {tuple((a, k * e) for a, k in m): c ** int(e)}
        out = {tuple((a, k * e) for a, k in m): Fraction(1)}
        if c != 1:
            r = _fracroot(c, e)
            if r is None:
                out = _pmul(out, patom(mk("pow", C(c), C(e))))
            else:
                out = {m: r for m in out}
        return out
    if e.denominator == 1 and 0 < e <= 4:
        r = p
        for _ in range(int(e) - 1):
            r = _pmul(r, p)
        return r
    if e.denominator == 1 and e < 0:
        return _ppow(_pinv(p), -e, b)
    return patom(from_poly(p), e)


def _fracroot(c, e):
    if c <= 0:
        return None
    for v in (c,):
        n = round(float(v.numerator) ** float(e))
        d = round(float(v.denominator) ** float(e))
        if e.denominator and Fraction(n, d or 1) ** int(e.denominator) == v ** int(e.numerator):
            return Fraction(n, d)
    return None


_sortm = {}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(p):
    """canonical term of a polynomial"""
    if not p:
        return ZERO
    key = tuple(sorted(p.items(), key=lambda z: _mono_key(z[0])))
    t = None
    for m, c in key:
        mt = None
        for a, e in m:
            at = a if e == 1 else mk("pow", a, C(e))
            mt = at if mt is None else mk("mul", mt, at)
        if mt is None:
            mt = C(c)
        elif c != 1:
            mt = mk("mul", C(c), mt)
        t = mt if t is None else mk("add", t, mt)
    _polym[t] = p
    _normm[t] = t
    return t


def norm(t):
    r = _normm.get(t)
    if r is None:
        r = _norm(t)
        _normm[t] = r
        _normm[r] = r
    return r


def _posatom(a):
    if a.op == "pow":
        x = num(a.args[0])
        return x is not None and x > 0
    return a.op in ("pw", "app") and a.args[0] in ("exp", "pi")


def cmp_atom(p, rel):
    """canonical comparison  p rel 0,  rel in lt/le/eq; returns term"""
    if not p:
        return TRUE if rel in ("le", "eq") else FALSE
    if list(p.keys()) == [()]:
        c = p[()]
        return TRUE if {"lt": c < 0, "le": c <= 0, "eq": c == 0}[rel] else FALSE
    if all(_posatom(a) for m in p for a, _ in m):
        if all(c > 0 for c in p.values()):
            return FALSE
        if all(c < 0 for c in p.values()):
            return FALSE if rel == "eq" else TRUE
    lead = _lead({m: c for m, c in p.items() if m != ()})
    q = {m: c / abs(lead) for m, c in p.items()}
    if lead < 0:
        q = {m: -c for m, c in q.items()}
    qt = from_poly(q)
    if rel == "eq":
        return mk("eq", qt, ZERO)
    if lead > 0:
        return mk(rel, qt, ZERO)
    # -q rel 0  <=>  q >= 0 / q > 0
    if rel == "lt":
        return mk("lt", ZERO, qt)
    return mk("le", ZERO, qt)


def _numeric(t):
    if t.op == "c":
        return num(t) is not None and not isinstance(cval(t), bool)
    if t.op in ("add", "mul", "div", "pow", "min", "max", "abs", "inv", "floordiv", "mod"):
        return True
    if t.op in ("tuple", "list", "dict", "obj", "fn", "arr", "undef", "unk"):
        return False
    if t.op == "sel":
        return _numeric(t.args[1]) or _numeric(t.args[2])
    return None


def _norm(t):
    op = t.op
    if op in ("c", "sym", "undef"):
        return t
    if op in ("add", "mul", "div", "pow"):
        return from_poly(poly(t))
    if op in ("lt", "le"):
        if t.args[0] is INF or t.args[1] is INF:
            return mk(op, norm(t.args[0]), norm(t.args[1]))
        return cmp_atom(_padd(poly(t.args[0]), poly(t.args[1]), -1), op)
    if op == "eq":
        a, b = norm(t.args[0]), norm(t.args[1])
        if a is b:
            return TRUE
        na, nb = _numeric(a), _numeric(b)
        if (na and nb is not False) or (nb and na is not False):
            if not (isc(a) and num(a) is None) and not (isc(b) and num(b) is None):
                return cmp_atom(_padd(poly(a), poly(b), -1), "eq")
        return eq(a, b)
    if op in ("min", "max"):
        parts = []
        st = list(t.args)
        while st:
            x = norm(st.pop())
            if x.op == op:
                st.extend(x.args)
            else:
                parts.append(x)
        cs = [num(x) for x in parts if num(x) is not None]
        parts = {x for x in parts if num(x) is None}
        if cs:
            parts.add(C(min(cs) if op == "min" else max(cs)))
        parts = sorted(parts, key=lambda x: x.id)
        if len(parts) == 1:
            return parts[0]
        return mk(op, *parts)
    if op == "abs":
        a = norm(t.args[0])
        p = poly(a)
        if p and list(p.keys()) != [()] and _lead({m: c for m, c in p.items() if m != ()}) < 0:
            a = from_poly({m: -c for m, c in p.items()})
        return tabs(a)
    if op == "sel":
        c = norm(t.args[0])
        a, b = norm(t.args[1]), norm(t.args[2])
        # canonical polarity for comparisons
        if c.op in ("lt", "le") and c.args[0] is ZERO:
            # 0 < q : flip to q <= 0
            if c.op == "lt":
                return sel(mk("le", c.args[1], ZERO), b, a)
            return sel(mk("lt", c.args[1], ZERO), b, a)
        return sel(c, a, b)
    if op in ("and", "or"):
        f = and_ if op == "and" else or_
        r = f(*[norm(a) for a in t.args])
        return r
    if op == "not":
        a = norm(t.args[0])
        if a.op == "lt":      # q<0 -> 0<=q
            return mk("le", a.args[1], a.args[0])
        if a.op == "le":
            return mk("lt", a.args[1], a.args[0])
        return not_(a)
    if op == "truth":
        return truth(norm(t.args[0]))
    if op == "inv":
        return from_poly(_pinv(poly(t.args[0])))
    if op == "floordiv" and num(t.args[1]) is not None and num(t.args[1]) != 0:
        return norm(pw("floor", div(t.args[0], t.args[1])))
    if op == "idx":
        return idx(norm(t.args[0]), norm(t.args[1]))
    if op == "store":
        return mk("store", *[norm(a) for a in t.args])
    na = [norm(a) if isinstance(a, T) else a for a in t.args]
    return mk(op, *na)


# ------------------------------------------------- finite ordering decision
class Undecided(Exception):
    pass


def _conds(t, out, seen):
    """collect condition atoms: ('p', polyterm) or ('b', boolterm)"""
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    if t.op in ("lt", "le") and t.args[1] is ZERO:
        out.setdefault(("p", t.args[0]))
    elif t.op in ("lt", "le") and t.args[0] is ZERO:
        out.setdefault(("p", t.args[1]))
    elif t.op == "eq" and t.args[1] is ZERO and _numeric(t.args[0]) is not False:
        out.setdefault(("p", t.args[0]))
    elif t.op == "eq":
        out.setdefault(("b", t))
    elif t.op == "truth":
        out.setdefault(("b", t))
    elif t.op in ("min", "max"):
        for i in range(len(t.args)):
            for j in range(i + 1, len(t.args)):
                p = cmp_atom(_padd(poly(t.args[i]), poly(t.args[j]), -1), "lt")
                if not isc(p):
                    q = p.args[0] if p.args[1] is ZERO else p.args[1]
                    out.setdefault(("p", q))
                break
            break
    elif t.op == "abs":
        p = cmp_atom(poly(t.args[0]), "lt")
        if not isc(p):
            out.setdefault(("p", p.args[0] if p.args[1] is ZERO else p.args[1]))
    elif is_bool(t) and t.op in ("sym", "phi", "lout", "elem", "app", "idx", "pw"):
        out.setdefault(("b", t))
    for a in t.args:
        _conds(a, out, seen)


def _apply_case(t, case, memo):
    """rewrite t (normalised) under one sign case"""
    kind, at, val = case
    m = {}
    if kind == "b":
        m[at] = TRUE if val else FALSE
        return subst(t, m)
    # sign of polynomial term `at`
    lt0 = mk("lt", at, ZERO)
    le0 = mk("le", at, ZERO)
    gt0 = mk("lt", ZERO, at)
    ge0 = mk("le", ZERO, at)
    eq0 = mk("eq", at, ZERO)
    m[lt0] = TRUE if val < 0 else FALSE
    m[le0] = TRUE if val <= 0 else FALSE
    m[gt0] = TRUE if val > 0 else FALSE
    m[ge0] = TRUE if val >= 0 else FALSE
    m[eq0] = TRUE if val == 0 else FALSE
    pa = poly(at)

    def go(x):
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op in ("min", "max"):
            parts = [go(a) for a in x.args]
            r = _minmax(x.op, parts, pa, val)
        elif x.op == "abs":
            a = go(x.args[0])
            s = _relsign(poly(a), pa, val)
            r = a if s in (1, 0) else (neg(a) if s == -1 else tabs(a))
        elif not x.args:
            r = x
        else:
            na = [go(a) for a in x.args]
            r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
        memo[x] = r
        return r
    t = go(t)
    if val == 0:
        s = _solve(pa)
        if s is not None:
            t = subst(t, {s[0]: s[1]})
    return t


def _solve(p):
    """p == 0 solved for a plain linear atom: (atom, term)"""
    for m, c in sorted(p.items(), key=lambda z: _mono_key(z[0])):
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op in ("sel", "min", "max", "abs"):
                continue
            rest = {k: -v / c for k, v in p.items() if k != m}
            if any(a in subterms(x) for k in rest for x, _ in k):
                continue
            return a, from_poly(rest)
    return None


def _relsign(q, p, val):
    """sign of poly q if it is a multiple of p (whose sign is val), else None"""
    if not q:
        return 0
    if list(q.keys()) == [()]:
        return 1 if q[()] > 0 else -1
    if set(q) != set(p):
        return None
    k = None
    for m in q:
        r = q[m] / p[m]
        if k is None:
            k = r
        elif k != r:
            return None
    return val * (1 if k > 0 else -1)


def _minmax(op, parts, pa, val):
    parts = list(dict.fromkeys(parts))
    changed = True
    while changed and len(parts) > 1:
        changed = False
        for i in range(len(parts)):
            for j in range(i + 1, len(parts)):
                s = _relsign(_padd(poly(norm(parts[i])), poly(norm(parts[j])), -1), pa, val)
                if s is None:
                    continue
                drop_i = (s > 0) if op == "min" else (s < 0)
                parts.pop(i if drop_i else j)
                changed = True
                break
            if changed:
                break
    r = parts[0]
    for p in parts[1:]:
        r = tmin(r, p) if op == "min" else tmax(r, p)
    return r


# counters and sizes: start at zero or above and are only ever increased
NONNEG = {"self._time_iter", "self._save_iter", "self._time", "self.L", "self.W", "self.L0", "self.N0", "iteration"}


def feasible(facts):
    """facts: list of ('p', polyterm, sign) / ('b', term, bool).  Linear
    consistency over monomials (Fourier-Motzkin, capped); sound for 'False'."""
    cons = []   # (poly, strict): poly > 0 / >= 0
    for f in facts:
        if f[0] == "p":
            p = poly(f[1])
            if f[2] > 0:
                cons.append((p, True))
            elif f[2] < 0:
                cons.append(({m: -c for m, c in p.items()}, True))
            else:
                cons.append((p, False))
                cons.append(({m: -c for m, c in p.items()}, False))
    for m in {m for q, _ in cons for m in q}:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym" and (
                m[0][0].args[0] in NONNEG or m[0][0].args[0].startswith("$count")):
            cons.append(({m: Fraction(1)}, False))
        elif m and all(e.denominator % 2 == 0 or e.numerator % 2 == 0 for _, e in m):
            # products of squares and square roots
            cons.append(({m: Fraction(1)}, False))
    eqs = {}
    for f in facts:
        if f[0] == "b" and f[1].op == "eq" and isc(f[1].args[1]):
            a, b = f[1].args
            if f[2]:
                if a in eqs and eqs[a] is not b:
                    return False
                eqs[a] = b
    for f in facts:
        if f[0] == "b" and f[1].op == "eq" and isc(f[1].args[1]) and not f[2]:
            if eqs.get(f[1].args[0]) is f[1].args[1]:
                return False
        if f[0] == "b" and f[1].op == "truth" and f[2]:
            e = eqs.get(f[1].args[0])
            if e is not None and truth(e) is FALSE:
                return False
        if f[0] == "b" and f[1].op == "truth" and not f[2]:
            e = eqs.get(f[1].args[0])
            if e is not None and truth(e) is TRUE:
                return False
    return _fm(cons)


def _fm(cons):
    cons = [(dict(p), s) for p, s in cons]
    for _ in range(40):
        mons = set()
        for p, s in cons:
            mons |= {m for m in p if m != ()}
        for p, s in cons:
            if all(m == () for m in p):
                c = p.get((), 0)
                if c < 0 or (s and c == 0):
                    return False
        if not mons:
            return True
        best = None
        for m in mons:
            pos = sum(1 for p, s in cons if p.get(m, 0) > 0)
            ng = sum(1 for p, s in cons if p.get(m, 0) < 0)
            if best is None or pos * ng < best[0]:
                best = (pos * ng, m)
        m = best[1]
        if best[0] > 400:
            return True
        P = [(p, s) for p, s in cons if p.get(m, 0) > 0]
        N = [(p, s) for p, s in cons if p.get(m, 0) < 0]
        Z = [(p, s) for p, s in cons if p.get(m, 0) == 0]
        for p, s in P:
            for q, r in N:
                k = _padd({a: c / p[m] for a, c in p.items()},
                          {a: c / -q[m] for a, c in q.items()})
                Z.append((k, s or r))
        cons = Z
        if len(cons) > 600:
            return True
    return True


def decide_equal(a, b, facts=(), budget=6000):
    """None if a == b for every valuation consistent with facts, otherwise a
    counterexample: (list of case facts, leaf a, leaf b).  Raises Undecided."""
    count = [0]

    def go(x, y, facts):
        count[0] += 1
        if count[0] > budget:
            raise Undecided("case budget")
        x, y = norm(x), norm(y)
        if x is y:
            return None
        conds = {}
        _conds(x, conds, set())
        _conds(y, conds, set())
        seen = [f for f in facts if (f[0], f[1]) in conds]
        if seen:
            x0, y0 = x, y
            for f in seen:
                memo = {}
                x, y = _apply_case(x, f, memo), _apply_case(y, f, memo)
            x, y = norm(x), norm(y)
            if x is y:
                return None
            if x is not x0 or y is not y0:
                return go(x, y, facts)
        conds = [c for c in conds if not any(f[0] == c[0] and f[1] is c[1] for f in facts)]
        if not conds:
            if _numeric(x) is not False and _numeric(y) is not False and facts:
                d = from_poly(_padd(poly(x), poly(y), -1))
                if not feasible(list(facts) + [("p", d, 1)]) and not feasible(list(facts) + [("p", d, -1)]):
                    return None
            return (list(facts), x, y)
        # prefer innermost (fewest nested conditions)
        def depth(c):
            o = {}
            _conds(c[1], o, set())
            return (len(o), c[1].id)
        kind, at = min(conds, key=depth)
        vals = (False, True) if kind == "b" else (0, 1, -1)
        for v in vals:
            case = (kind, at, v)
            nf = list(facts) + [case]
            if not feasible(nf):
                continue
            memo = {}
            r = go(_apply_case(x, case, memo), _apply_case(y, case, memo), nf)
            if r is not None:
                return r
        return None

    f0 = []
    x, y = norm(a), norm(b)
    for f in facts:
        f = (f[0], norm(f[1]), f[2])
        f0.append(f)
        memo = {}
        x = norm(_apply_case(x, f, memo))
        y = norm(_apply_case(y, f, memo))
    return go(x, y, f0)


def implies(a, b, facts=()):
    """None if a => b always, else counterexample"""
    return decide_equal(or_(not_(a), b), TRUE, facts)


# ------------------------------------------------------------------ display
def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 7:
        return "..."
    d = depth + 1
    o, a = t.op, t.args
    if o == "c":
        v = a[0]
        if isinstance(v, Fraction):
            return "%g" % float(v)
        return repr(v)
    if o == "sym":
        return a[0]
    if o == "add":
        return "(%s + %s)" % (show(a[0], d), show(a[1], d))
    if o == "mul":
        return "%s*%s" % (show(a[0], d), show(a[1], d))
    if o == "div":
        return "%s/%s" % (show(a[0], d), show(a[1], d))
    if o == "pow":
        return "%s**%s" % (show(a[0], d), show(a[1], d))
    if o in ("lt", "le", "eq"):
        return "(%s %s %s)" % (show(a[0], d), {"lt": "<", "le": "<=", "eq": "=="}[o], show(a[1], d))
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(show(x, d) for x in a) + ")"
    if o == "not":
        return "not " + show(a[0], d)
    if o == "sel":
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == "idx":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "store":
        return "%s{[%s]=%s}" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a[:2])
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if o == "app" or o == "pw":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if o == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if o in ("phi", "lout"):
        return "%s<%s>" % (a[1], "%s%s" % (o, a[0]))
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))
