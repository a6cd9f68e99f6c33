"""Multi-job expansion, job duration, argument precedence, failure isolation, per-job random state."""
import itertools
import re

from ..core import *
from .config import defaults

S = sym
BP = "BasePreprocessor"


def conv(I, st, x):
    if isinstance(x, dict):
        return I.new_dict(st, {k: (TRUE, conv(I, st, v)) for k, v in x.items()})
    if isinstance(x, list):
        return I.new_list(st, [conv(I, st, v) for v in x])
    return x if isinstance(x, T) else C(x)


def setf(I, st, o, **kw):
    r = st.heap[o.id]
    st.heap[o.id] = ObjRec(r.cls, dict(r.fields, **kw), r.lazy)


def expand(c, spec, key, unroll=None):
    def pre(I, st, o):
        I.unroll = unroll or I.unroll
        I.run(st, I.repo.cls(BP).find("__init__"), [o])
        setf(I, st, o, config_dict=conv(I, st, spec), _input_file=sym("$input"))
    return c.run_method("construct_file_list", cls=BP, pre=pre, key=("expand", key))


def jobs_of(R):
    """[(key -> value term)] of the configured jobs, or None where they cannot be resolved"""
    v = R.raw("_config_list")
    L = R.I.rec(R.st, v) if isinstance(v, Ref) else None
    items = getattr(L, "items", None)
    if items is None:
        return None, None
    out = []
    for d in items:
        D = R.I.rec(R.st, d) if isinstance(d, Ref) else None
        if not isinstance(D, DictRec) or D.entries is None:
            return None, None
        row = {}
        for k, (cond, x) in D.entries.items():
            if norm(cond) is not TRUE:
                return None, None
            row[k] = R.term(x)
        out.append(row)
    return out, items


def listed(R, name):
    v = R.raw(name)
    L = R.I.rec(R.st, v) if isinstance(v, Ref) else None
    items = getattr(L, "items", None)
    return None if items is None else [R.term(x) for x in items]


def is_draw(t):
    return any(x.op == "ext" and "random" in str(x.args[1]) for x in subterms(t))


def check_jobs(c, R, base, rows, nens, nm, per_base):
    """rows: own values of every requested base job; nens: repeats with seeds (None: no ensemble)"""
    w = R.where
    jobs, refs = jobs_of(R)
    n = "%s: " % nm
    if R.st.dead:
        c.bad(n + "the expansion completes", w, "always raises %s" % sorted({x.cls for x in R.escapes()}))
        return
    if jobs is None:
        c.unk(n + "the list of jobs", w, "job list not resolved")
        return
    want = len(rows) * (nens or 1)
    if len(jobs) != want:
        c.bad(n + "number of jobs", w, "%d jobs, %d requested" % (len(jobs), want))
        return
    c.ok(n + "number of jobs", w, str(want))
    # every job: its own values, the base configuration, its own folder and nothing else
    left = [{k: v for k, v in r.items() if not (nens and k == "seed")} for r in rows for _ in range(nens or 1)]
    seeds = {}
    for i, j in enumerate(jobs):
        own = {k: v for k, v in j.items() if k in (rows[0] if rows else {}) and not (nens and k == "seed")}
        m = [k for k, r in enumerate(left) if own.keys() == r.keys() and all(_eq(own[x], r[x]) for x in r)]
        if not m:
            c.bad(n + "job %d is one of the requested combinations" % i, w,
                  "values %s" % {k: show(v)[:30] for k, v in own.items()})
            continue
        idx = m[0]
        rk = tuple(sorted((k, show(v if isinstance(v, T) else C(v))) for k, v in left[idx].items()))
        left.pop(idx)
        c.ok(n + "job %d is one of the requested combinations" % i, w)
        for k, v in base.items():
            if k == "out_dir" or k in own or k == "seed" and nens:
                continue
            if k not in j:
                c.bad(n + "job %d keeps '%s' of the base configuration" % (i, k), w, "entry is missing")
            elif not _eq(j[k], v if isinstance(v, T) else C(v)):
                c.bad(n + "job %d keeps '%s' of the base configuration" % (i, k), w, "value is " + show(j[k])[:60])
            else:
                c.ok(n + "job %d keeps '%s' of the base configuration" % (i, k), w)
        extra = set(j) - set(own) - set(base) - {"out_dir"} - ({"seed"} if nens else set())
        if extra:
            c.bad(n + "job %d holds nothing else" % i, w, "also %s" % sorted(extra))
        else:
            c.ok(n + "job %d holds nothing else" % i, w)
        if nens:
            sd = j.get("seed")
            if sd is None:
                c.bad(n + "job %d has its own seed" % i, w, "no seed")
            elif not is_draw(sd):
                (c.bad if sd.op in ("c", "sym") else c.unk)(n + "job %d has its own seed" % i, w, "seed is %s, not drawn" % show(sd)[:60])
            else:
                c.ok(n + "job %d has its own seed" % i, w)
                seeds.setdefault(rk, []).append(sd)
    if nens:
        for rk, ss in seeds.items():
            if len(set(ss)) != len(ss):
                c.bad(n + "the repeats of one job have separately drawn seeds", w, "%d repeats share %d draws" % (len(ss), len(set(ss))))
            else:
                c.ok(n + "the repeats of one job have separately drawn seeds", w)
        for e in R.events:
            if e.kind == "rng" and e.name.split(".")[-1] in ("seed", "set_state"):
                c.bad(n + "seeds are not fixed in advance", at(e), "%s before the draw" % e.name)
            elif e.kind == "rng" and e.name.split(".")[-1] in ("randint", "random_integers") and e.args:
                hi = [a.args[0] for a in e.args if isinstance(a, T) and a.op == "c" and isinstance(a.args[0], (int, float))]
                if len(hi) == len(e.args) and hi and max(hi) < 2 ** 16:
                    c.bad(n + "seeds are drawn from a large range", at(e), "range ends at %s" % max(hi))
                else:
                    c.ok(n + "seeds are drawn from a large range", at(e))
    # folders
    od = [j.get("out_dir") for j in jobs]
    root = base["out_dir"]
    for i, d in enumerate(od):
        if d is None:
            c.bad(n + "job %d has its own output folder" % i, w, "no output folder")
        elif root not in subterms(d):
            (c.bad if d.op in ("c", "sym", "pathjoin") else c.unk)(n + "job %d has its own output folder" % i, w, show(d)[:80])
        elif d is root or norm(d) is norm(root):
            c.bad(n + "job %d has its own output folder" % i, w, "is the common folder itself")
        elif any(_eq(d, x) for k, x in enumerate(od) if k != i and x is not None):
            c.bad(n + "job %d has its own output folder" % i, w, "shared with another job: " + show(d)[:80])
        else:
            c.ok(n + "job %d has its own output folder" % i, w)
    if len({r.id for r in refs}) != len(refs):
        c.bad(n + "jobs do not share one configuration", w)
    else:
        c.ok(n + "jobs do not share one configuration", w)
    check_files(c, R, jobs, n)


def _eq(a, b):
    a = a if isinstance(a, T) else C(a)
    b = b if isinstance(b, T) else C(b)
    if norm(a) is norm(b):
        return True
    try:
        return decide_equal(a, b) is None
    except (Undecided, RecursionError):
        return False


def lead(t):
    """constant text a written line begins with, and the rest"""
    parts = []

    def go(x):
        if x.op == "add":
            for a in x.args:
                go(a)
        elif x.op == "app" and (x.args[0] == "concat" or x.args[0] == "fmt" and len(x.args) == 2):
            for a in x.args[1:]:
                go(a)
        else:
            parts.append(x)
    go(t)
    s = ""
    rest = []
    for p in parts:
        if p.op == "c" and isinstance(p.args[0], str) and not rest:
            s += p.args[0]
        else:
            rest.append(p)
    return s, rest


class Line:
    """a write of one text, under the guards of the write and of the choice of text"""

    def __init__(self, e, g):
        self.e, self.g = e, g


def variants(t, depth=0):
    """the texts a term that chooses between texts may be, each with its condition"""
    if depth < 4 and t.op == "app" and t.args[0] in ("concat", "str") or t.op == "add":
        for i, a in enumerate(t.args):
            if isinstance(a, T) and a.op == "sel":
                out = []
                for cond, v in ((a.args[0], a.args[1]), (not_(a.args[0]), a.args[2])):
                    parts = [x for x in t.args[:i] + (v,) + t.args[i + 1:] if isinstance(x, T)]
                    for g, x in variants(concat(*parts), depth + 1):
                        out.append(([cond] + g, x))
                return out
    return [([], t)]


def check_files(c, R, jobs, n):
    files = listed(R, "_file_list")
    w = R.where
    if files is None:
        c.unk(n + "job files", w, "file list not resolved")
        return
    if len(files) != len(jobs):
        c.bad(n + "one file per job", w, "%d files for %d jobs" % (len(files), len(jobs)))
        return
    for i, (f, j) in enumerate(zip(files, jobs)):
        if "out_dir" in j and j["out_dir"] not in subterms(f):
            c.bad(n + "file %d lies in the folder of job %d" % (i, i), w, show(f)[:100])
            continue
        c.ok(n + "file %d lies in the folder of job %d" % (i, i), w)
        op = [e for e in R.events if e.kind == "call" and e.name in ("open", ".open") and (e.args and R.term(e.args[0]) is f or e.data is f)]
        wr = [e for e in R.events if e.kind == "call" and e.name in (".write", ".writelines") and isinstance(e.data, T) and f in subterms(e.data)]
        if not op:
            c.unk(n + "file %d is written" % i, w, "no open of the job file found")
            continue
        if not wr:
            dump = [e for e in R.events if e.kind == "call" and "dump" in e.name]
            c.unk(n + "file %d is written" % i, w, "written by %s" % (dump[0].name if dump else "unknown means"))
            continue
        for k, v in j.items():
            ob = n + "file %d holds '%s'" % (i, k)
            val = v if isinstance(v, T) else C(v)
            mine = []
            for e in wr:
                for g, t in variants(R.term(e.args[0])):
                    s, rest = lead(t)
                    if s.split(":")[0] == k:
                        mine.append((Line(e, g), s, rest))
            if not mine:
                if any(not lead(R.term(e.args[0]))[0] for e in wr):
                    c.unk(ob, w, "written text not resolved")
                else:
                    c.bad(ob, at(op[0]), "no line for this entry is written")
                continue
            isnone = norm(mk("eq", val, NONE))
            nul, live = [], []
            for e, s, rest in mine:
                if not rest and s.strip() == "%s: null" % k:
                    nul.append(e)
                elif rest and s == k + ": " and len(rest) <= 2 and _is_str_of(rest[0], val):
                    live.append(e)
                elif not rest and val.op == "c" and s.strip() == "%s: %s" % (k, val.args[0]):
                    live.append(e)
                elif not rest or rest and val not in subterms(rest[0]) and not any(x.op == "ext" for x in subterms(rest[0])):
                    c.bad(ob, at(e.e), "writes %r..." % s)
                else:
                    live.append(e)
                    why = altered(rest[0], val) if rest and len(rest) <= 2 and s == k + ": " else None
                    (c.bad if why else c.unk)(ob, at(e.e), why or "text of the value not resolved")
            for e in nul:
                g = [p for p in (list(R.guards(e.e)) + e.g)]
                if val is not NONE and not any(norm(p) is isnone for p in g):
                    c.bad(ob, at(e.e), "null is written for a value that is not null")
            if val is NONE:
                if nul:
                    c.ok(ob, at(nul[0].e))
                else:
                    c.bad(ob, at(mine[0][0].e), "null is not written as null")
                continue
            g = [[p for p in (list(R.guards(e.e)) + e.g) if norm(p) is not norm(not_(isnone))] for e in live]
            g = [x for x in g if not any("isdir" in show(p) or "is_dir" in show(p) or "exists" in show(p) for p in x)]
            if not live:
                c.bad(ob, at(mine[0][0].e), "the value is never written")
            elif not any(not x for x in g):
                c.bad(ob, at(live[0].e), "only written when %s" % (show(g[0][0])[:80] if g else "?"))
            else:
                c.ok(ob, at(live[0].e))


PLAIN_FMT = ("%s", "%r", "{}", "{0}", "{!r}", "{!s}", "{0!r}", "{0!s}")


def altered(t, val):
    """why the printed text does not carry the value itself, or None"""
    if t.op == "sel":
        return altered(t.args[1], val) or altered(t.args[2], val)
    if t.op in ("app", "aapp") and t.args[0] in ("str", "str.format", "fmt", "format") and len(t.args) == 3:
        f = [a for a in t.args[1:] if isc(a) and isinstance(cval(a), str)]
        v = [a for a in t.args[1:] if a not in f]
        if len(f) == 1 and len(v) == 1:
            x = v[0].args[0] if v[0].op == "tuple" and len(v[0].args) == 1 else v[0]
            if cval(f[0]) not in PLAIN_FMT and cval(f[0]) and _is_str_of(x, val):
                return "the value is written with the format %r" % cval(f[0])
            if cval(f[0]) in PLAIN_FMT:
                return altered(x, val)
    if t.op in ("app", "aapp", "pw") and t.args[0] in ("round", "float32", "int", "float16", "abs", "floor", "ceil", "trunc", "bool") \
            and isinstance(t.args[1], T) and _is_str_of(t.args[1], val):
        return "%s of the value is written" % t.args[0]
    return None


def _is_str_of(t, val):
    if t is val:
        return True
    if t.op in ("app", "aapp") and t.args[0] in ("str", "str.format", "fmt", "format") and len(t.args) == 3:
        f = [a for a in t.args[1:] if isc(a) and isinstance(cval(a), str)]
        v = [a for a in t.args[1:] if a not in f]
        if len(f) == 1 and len(v) == 1 and cval(f[0]) in PLAIN_FMT:
            x = v[0].args[0] if v[0].op == "tuple" and len(v[0].args) == 1 else v[0]
            return _is_str_of(x, val)
    if t.op in ("app", "aapp") and t.args[0] in ("str", "repr", "fmt") and len(t.args) == 2:
        return t.args[1] is val or norm(t.args[1]) is norm(val)
    return norm(t) is norm(app("str", val))


def prod(mat):
    ks = list(mat)
    return [dict(zip(ks, v)) for v in itertools.product(*mat.values())]


def sy(p, n):
    return [S("%s%d" % (p, i)) for i in range(n)]


def occurs_bare(t, el, lossy):
    """the job number also enters outside of these terms"""
    if t in lossy:
        return False
    return t in el or any(occurs_bare(a, el, lossy) for a in t.args if isinstance(a, T))


def p14(c):
    if c.method("construct_file_list", BP) is None:
        c.unk("job expansion", "", "construct_file_list not found")
        return
    B = {"out_dir": S("$out"), "u0": S("$u"), "nothing": None}
    cases = [
        ("set of 2 with two keys", {"set": [{"a": S("a0"), "b": S("b0")}, {"a": S("a1"), "b": S("b1")}]}, None),
        ("set of 1", {"set": [{"a": S("a0")}]}, None),
        ("set of 4 overriding a base entry", {"set": [{"u0": x} for x in sy("v", 4)]}, None),
        ("set with seeds", {"set": [{"seed": x, "a": y} for x, y in zip(sy("s", 3), sy("a", 3))]}, None),
        ("matrix 2", {"matrix": {"a": sy("a", 2)}}, None),
        ("matrix 2x3", {"matrix": {"a": sy("a", 2), "b": sy("b", 3)}}, None),
        ("matrix 2x2x2", {"matrix": {"a": sy("a", 2), "b": sy("b", 2), "d": sy("d", 2)}}, None),
        ("matrix 1x2", {"matrix": {"a": sy("a", 1), "b": sy("b", 2)}}, None),
        ("matrix over 12 values", {"matrix": {"a": sy("a", 12)}}, None),
        ("matrix of seeds", {"matrix": {"seed": sy("s", 2), "b": sy("b", 2)}}, None),
        ("ensemble of 3", {"ensemble": 3}, 3),
        ("ensemble of 2 with matrix 2x2", {"ensemble": 2, "matrix": {"a": sy("a", 2), "b": sy("b", 2)}}, 2),
        ("ensemble of 3 with set of 2", {"ensemble": 3, "set": [{"a": S("a0"), "b": S("b0")}, {"a": S("a1"), "b": S("b1")}]}, 3),
        ("ensemble of 2 with a set that has seeds", {"ensemble": 2, "set": [{"seed": x, "a": y} for x, y in zip(sy("s", 2), sy("a", 2))]}, 2),
        ("ensemble of 2 with a set and a seed in the base configuration", {"ensemble": 2, "seed": S("$s"), "set": [{"a": x} for x in sy("a", 2)]}, 2),
        ("ensemble of 1 with matrix", {"ensemble": 1, "matrix": {"a": sy("a", 2)}}, None),
        ("ensemble of 1 with set", {"ensemble": 1, "set": [{"a": x} for x in sy("a", 2)]}, None),
    ]
    for nm, ex, ne in cases:
        R = expand(c, dict(B, **ex), nm)
        rows = ex.get("set") or prod(ex.get("matrix", {}))
        check_jobs(c, R, B, rows, ne, nm, "set" in ex)
    # every parameter survives the expansion
    D = {k: S("$" + k) for k in defaults(c)}
    D["out_dir"] = S("$out")
    D.pop("seed", None)
    for nm, ex in (("all parameters, matrix", {"matrix": {"custom": sy("a", 2)}}), ("all parameters, set", {"set": [{"custom": x} for x in sy("a", 2)]})):
        R = expand(c, dict(D, verbose=ZERO, resume_checkpoint=FALSE, **ex), nm)
        check_jobs(c, R, dict(D, verbose=ZERO, resume_checkpoint=FALSE), ex.get("set") or prod(ex["matrix"]), None, nm, "set" in ex)
    # any number of jobs: the folder name tells every job from every other
    for nm, ex in (("matrix of any size", {"matrix": {"a": S("$values")}}), ("set of any size", {"set": S("$entries")})):
        R = expand(c, {"out_dir": S("$out"), **ex}, "any " + nm)
        ob = nm + ": folders of different jobs differ"
        ds = [e for e in R.events if e.kind == "dictset" and e.name == "out_dir" and e.loops]
        if not ds:
            c.unk(ob, R.where, "folder assignment not found")
        for e in ds:
            t = e.data[2]
            el = [x for x in subterms(t) if x.op == "elem" and x.args[0] in e.loops]
            # a counter that every pass advances by the same amount tells the passes apart as well
            for L in [R.I.loops[l] for l in e.loops if l in R.I.loops]:
                for l, ph in L.phi.items():
                    if isinstance(ph, T) and isinstance(L.next.get(l), T):
                        d = norm(sub(L.next[l], ph))
                        if isc(d) and cval(d) and ph in subterms(t):
                            el.append(ph)
            lossy = [x for x in subterms(t) if (x.op in ("mod", "floordiv", "min", "max", "idx") or x.op == "app" and x.args[0] in ("int", "len", "slice"))
                     and any(y in subterms(x) for y in el)]
            if not el:
                (c.bad if not any(x.op in ("ext", "phi") for x in subterms(t)) else c.unk)(ob, at(e), "the folder %s does not depend on the job" % show(t)[:80])
            elif lossy and all(any(y in subterms(x) for x in lossy) for y in el):
                (c.bad if lossy[0].op in ("mod", "floordiv", "min", "max") and not occurs_bare(t, el, lossy) else c.unk)(
                    ob, at(e), "different jobs get the same %s" % show(lossy[0])[:60])
            else:
                c.ok(ob, at(e))
    # a single job
    for nm, ex in (("a plain configuration is one job", {}), ("an ensemble of one is one job", {"ensemble": 1})):
        R = expand(c, dict(B, **ex), "single" + nm)
        jobs, _ = jobs_of(R)
        fl = listed(R, "_file_list")
        if jobs is None or fl is None:
            c.unk(nm, R.where)
        elif len(jobs) != 1 or len(fl) != 1 or {k: v for k, v in jobs[0].items()} != {k: (v if isinstance(v, T) else C(v)) for k, v in B.items()} \
                or fl[0] is not sym("$input"):
            c.bad(nm, R.where, "jobs %s, %d files" % ([sorted(j) for j in jobs], len(fl)))
        else:
            c.ok(nm, R.where)
    # malformed specifications
    o = S("$out")
    bad = [
        ("set and matrix together", {"out_dir": o, "set": [{"a": S("x")}], "matrix": {"b": sy("b", 2)}}),
        ("set, matrix and ensemble together", {"out_dir": o, "ensemble": 2, "set": [{"a": S("x")}], "matrix": {"b": sy("b", 2)}}),
        ("matrix without an output folder", {"matrix": {"a": sy("a", 2)}}),
        ("set without an output folder", {"set": [{"a": x} for x in sy("a", 2)]}),
        ("ensemble without an output folder", {"ensemble": 2}),
        ("output folder in the matrix", {"out_dir": o, "matrix": {"out_dir": sy("a", 2)}}),
        ("output folder in the matrix (second key)", {"out_dir": o, "matrix": {"a": sy("a", 2), "out_dir": sy("d", 2)}}),
        ("nested list first in the matrix", {"out_dir": o, "matrix": {"a": [sy("a", 2), S("x")]}}),
        ("nested list last in the matrix", {"out_dir": o, "matrix": {"b": sy("b", 2), "a": [S("x"), sy("a", 2)]}}),
        ("colon in a matrix key", {"out_dir": o, "matrix": {"a:b": sy("a", 2)}}),
        ("colon in a later matrix key", {"out_dir": o, "matrix": {"c": sy("c", 2), "a:b": sy("a", 2)}}),
        ("colon in a set key", {"out_dir": o, "set": [{"a:b": x} for x in sy("a", 2)]}),
        ("matrix key also in the base configuration", {"out_dir": o, "a": S("q"), "matrix": {"a": sy("a", 2)}}),
        ("later matrix key also in the base configuration", {"out_dir": o, "a": S("q"), "matrix": {"b": sy("b", 2), "a": sy("a", 2)}}),
        ("ensemble with a seed in the base configuration", {"out_dir": o, "seed": S("q"), "ensemble": 2}),
        ("matrix is a list", {"out_dir": o, "matrix": sy("a", 2)}),
        ("matrix is a number", {"out_dir": o, "matrix": 3}),
        ("ensemble with a matrix that is a list", {"out_dir": o, "ensemble": 2, "matrix": sy("a", 2)}),
        ("ensemble is a float", {"out_dir": o, "ensemble": 2.5}),
        ("ensemble is a string", {"out_dir": o, "ensemble": "2"}),
        ("ensemble is a list", {"out_dir": o, "ensemble": [2]}),
        ("seed in the matrix with an ensemble", {"out_dir": o, "ensemble": 2, "matrix": {"seed": sy("a", 2)}}),
        ("set is a dictionary", {"out_dir": o, "set": {"a": sy("a", 2)}}),
        ("set is a number", {"out_dir": o, "set": 2}),
        ("set entry is a list", {"out_dir": o, "set": [{"a": S("x")}, [S("y")]]}),
        ("set entry is a number", {"out_dir": o, "set": [{"a": S("x")}, 3]}),
        ("first set entry is a number", {"out_dir": o, "set": [3, {"a": S("x")}]}),
        ("set entries with different keys", {"out_dir": o, "set": [{"a": S("x")}, {"b": S("y")}]}),
        ("last set entry lacks a key", {"out_dir": o, "set": [{"a": S("x"), "b": S("y")}] * 2 + [{"a": S("x")}]}),
        ("last set entry has an additional key", {"out_dir": o, "set": [{"a": S("x")}] * 2 + [{"a": S("x"), "b": S("y")}]}),
    ]
    for nm, sp in bad:
        R = expand(c, sp, "bad " + nm)
        ob = "%s is an error" % nm
        kinds = {x.cls for x in R.escapes()}
        if not R.st.dead:
            jobs, _ = jobs_of(R)
            (c.bad if jobs is not None or not kinds else c.unk)(ob, R.where, "accepted%s" % (" as %d jobs" % len(jobs) if jobs is not None else ""))
        else:
            c.ok(ob, R.where, str(sorted(kinds)))



# --------------------------------------------------------------------- P38
def cell(t, i, j):
    """content of one place of the table; None where a store in between is not understood"""
    while t.op == "store":
        ix, v = t.args[1], t.args[2]
        q = list(ix.args) if ix.op == "tuple" else [ix]
        if num(q[0]) is None or len(q) > 2:
            return None
        if num(q[0]) == i:
            if len(q) == 2 and num(q[1]) is not None:
                if num(q[1]) == j:
                    return v
            else:
                lo = 0
                if len(q) == 2:
                    m = re.fullmatch(r"(\d*):", show(q[1]))
                    if not m:
                        return None
                    lo = int(m.group(1) or 0)
                if j >= lo:
                    return v.args[j - lo] if v.op in ("tuple", "list", "arr") and j - lo < len(v.args) else None
        t = t.args[0]
    if t.op in ("list", "tuple", "arr") and i < len(t.args) and isinstance(t.args[i], T):
        r = t.args[i]
        return r.args[j] if r.op in ("list", "tuple", "arr") and j < len(r.args) else None
    if t.op == "aapp" and t.args[0] == "uninit":
        return UNDEF
    return None


def p38(c):
    if c.method("construct_file_list", BP) is None:
        c.unk("job table", "", "construct_file_list not found")
        return
    B = {"out_dir": S("$out"), "u0": S("$u")}
    cases = [
        ("set of 2 with two keys", {"set": [{"a": S("a0"), "b": S("b0")}, {"a": S("a1"), "b": S("b1")}]}),
        ("set whose entries order their keys differently", {"set": [{"a": S("a0"), "b": S("b0"), "d": S("d0")}, {"d": S("d1"), "b": S("b1"), "a": S("a1")},
                                                                   {"b": S("b2"), "a": S("a2"), "d": S("d2")}]}),
        ("set whose keys are in no particular order", {"set": [{"m": S("m0"), "Z": S("z0"), "b": S("b0"), "aa": S("a0")},
                                                              {"aa": S("a1"), "b": S("b1"), "Z": S("z1"), "m": S("m1")}]}),
        ("set of 1", {"set": [{"a": S("a0")}]}),
        ("set of 4 overriding a base entry", {"set": [{"u0": x} for x in sy("v", 4)]}),
        ("matrix 2", {"matrix": {"a": sy("a", 2)}}),
        ("matrix 2x3", {"matrix": {"a": sy("a", 2), "b": sy("b", 3)}}),
        ("matrix 3x1x2", {"matrix": {"b": sy("a", 3), "a": sy("b", 1), "d": sy("d", 2)}}),
        ("ensemble of 3", {"ensemble": 3}),
        ("ensemble of 2 with matrix 2x2", {"ensemble": 2, "matrix": {"a": sy("a", 2), "b": sy("b", 2)}}),
        ("ensemble of 2 with matrix of later names", {"ensemble": 2, "matrix": {"z": sy("a", 2), "t": sy("b", 1)}}),
        ("ensemble of 2 with set of 2", {"ensemble": 2, "set": [{"a": S("a0"), "b": S("b0")}, {"b": S("b1"), "a": S("a1")}]}),
    ]
    for nm, ex in cases:
        R = expand(c, dict(B, **ex), "table " + nm)
        n = nm + ": "
        jobs, _ = jobs_of(R)
        if R.st.dead or jobs is None:
            c.unk(n + "table", R.where, "job list not resolved")
            continue
        ev = [e for e in R.events if e.kind == "call" and e.name.split(".")[-1] == "savetxt"]
        if len(ev) != 1 or len(ev[0].args) < 2:
            oth = [e for e in R.events if e.kind == "call" and ("write" in e.name or "open" in e.name or "dump" in e.name) and
                   any("job_0" not in show(R.term(a)) and "$out" in show(R.term(a)) for a in e.args if not isinstance(a, (str, int)))]
            (c.unk if oth or ev else c.bad)(n + "a table of the jobs is written", R.where, "%d tables written" % len(ev))
            continue
        e = ev[0]
        w = at(e)
        g = [p for p in R.guards(e) if not any(x in show(p) for x in ("isdir", "is_dir", "exists", "isinstance"))]
        pth = R.term(e.args[0])
        if g:
            c.bad(n + "a table of the jobs is written", w, "only when " + show(g[0])[:80])
        elif S("$out") not in subterms(pth):
            (c.bad if pth.op in ("c", "sym") else c.unk)(n + "a table of the jobs is written", w, "to " + show(pth)[:60])
        elif any(isc(x) and isinstance(cval(x), str) and re.match(r"job_\d", cval(x)) for x in subterms(pth)):
            c.bad(n + "a table of the jobs is written", w, "into the folder of one job: " + show(pth)[:60])
        else:
            c.ok(n + "a table of the jobs is written", w)
        kw = {k: R.term(v) for k, v in (e.kwargs or {}).items()}
        fmt, dl = kw.get("fmt", C("%.18e")), kw.get("delimiter", C(" "))
        if not (isc(fmt) and isc(dl)):
            c.unk(n + "values are written as they are", w, "format not resolved")
        elif cval(fmt) not in ("%s", "%r"):
            c.bad(n + "values are written as they are", w, "with the format %r" % cval(fmt))
        else:
            c.ok(n + "values are written as they are", w)
        cm = kw.get("comments", C("# "))
        if isc(cm) and cval(cm) != "":
            c.bad(n + "headings", w, "the line of headings is written behind %r" % cval(cm))
        tb = R.term(e.args[1])
        dt = [str(cval(d) if isinstance(d, T) and isc(d) else d) for i, d in R.I.dtypes.items()
              if isinstance(R.st.heap.get(i), ArrRec) and R.st.heap[i].content is tb]
        dt = [d for d in dt if re.fullmatch(r"[<>=|]?[USfiu]\d+|float\d*|int\d*|str", d)]
        if dt:
            c.bad(n + "the table holds any value", w, "its entries are of type %r" % dt[0])
        hd = kw.get("header", C(""))
        if not (isc(hd) and isinstance(cval(hd), str)):
            c.unk(n + "headings", w, show(hd)[:80])
            continue
        names = [x.strip() for x in cval(hd).split(",")]
        own = list(ex["set"][0]) if "set" in ex else list(ex.get("matrix", {}))
        own = own + (["seed"] if "ensemble" in ex and "seed" not in own else [])
        if sorted(names[1:]) != sorted(own):
            c.bad(n + "one heading per varied parameter", w, "%s for %s" % (names[1:], own))
            continue
        c.ok(n + "one heading per varied parameter", w)
        t = R.term(e.args[1])
        for i, j in enumerate(jobs):
            od = j.get("out_dir", UNDEF)
            last = od.args[-1] if od.op == "app" and od.args[0] == "pathjoin" else None
            got = cell(t, i, 0)
            ob = n + "row %d names job %d" % (i, i)
            if got is None or last is None:
                c.unk(ob, w, "not resolved")
            elif got is last:
                c.ok(ob, w)
            elif isc(last) and (got.op in ("c", "sym", "undef") or got.op == "app" and got.args[0] == "pathjoin"):
                c.bad(ob, w, "names %s, the job is %s" % (show(got)[:40], show(last)[:40]))
            else:
                c.unk(ob, w, show(got)[:60])
            for q, k in enumerate(names[1:]):
                ob = n + "row %d lists the '%s' of job %d" % (i, k, i)
                got, want = cell(t, i, q + 1), j.get(k, UNDEF)
                if got is None:
                    c.unk(ob, w, "not resolved")
                elif got is want or _eq(got, want):
                    c.ok(ob, w)
                elif got.op in ("c", "sym", "ext", "undef"):
                    c.bad(ob, w, "lists %s, the job has %s" % (show(got)[:40], show(want)[:40]))
                elif any(rounded(x) for x in subterms(got)):
                    c.bad(ob, w, "lists %s, the job has %s" % (show(got)[:60], show(want)[:40]))
                else:
                    c.unk(ob, w, show(got)[:60])


def rounded(x):
    """a number printed with fewer digits than it has"""
    if x.op in ("app", "pw") and x.args[0] in ("round", "int", "float32", "float16"):
        return True
    if x.op == "app" and x.args[0] in ("str", "fmt", "str.format", "format"):
        return any(isc(y) and isinstance(cval(y), str) and re.search(r"\.\d+[efgEG]?\}?|%[efg]|^[efg]$", cval(y)) for y in x.args[1:])
    return False


# ------------------------------------------------------------- job sessions
DUR = ("timesteps", "time", "time_years")
JOBS = ("_SerialJob", "_ParallelJob")


def model_init(I, fv, args, kw, fr, node):
    """stand-in for the construction of the model inside a job: any state"""
    if fv.cls is None or fv.cls.name != "DeltaModel":
        return NotImplemented
    o = args[0]
    r = fr.st.heap[o.id]
    fr.st.heap[o.id] = ObjRec(r.cls, dict(r.fields), "model")
    env = {}
    I.bind(fv, args, kw, fr, env)
    I.emit("built", "DeltaModel", node, fr.st, data={k: I.safe_term(v, fr.st) for k, v in env.items()})
    return NONE


def job_new(c, cls, extra=()):
    def cfg(I, st, o):
        return I.new_dict(st, {k: (truth(S("$has_" + k)), S("$" + k)) for k in DUR + ("If", "seed", "out_dir", "verbose", "parallel", "dryrun",
                                                                                        "save_checkpoint", "resume_checkpoint", "save_eta_grids")})
    fv = c.method("__init__", cls)
    if fv is None:
        return None
    names = [a.arg for a in fv.node.args.args][1:]
    kw = {}
    I = c.interp()
    I.dispatch_override["__init__"] = model_init
    st = St({}, {}, ())
    o = I.new_obj(st, c.repo.cls(cls), "self")
    for n in names:
        if n == "config_dict":
            kw[n] = cfg(I, st, o)
        elif n in ("DeltaModel", "defer_output"):
            continue
        else:
            kw[n] = S("$" + n)
    I.run(st, fv, [o], kw)
    c.absorb(I)
    return Run(c, I, st, o, NONE, fv, 0)


def job_run(c, cls):
    """run() of an arbitrary job; model steps replaced by stand-ins that record the state they are called in"""
    from .determ import job_model
    mod = c.repo.cls("DeltaModel")
    names = [n for n in ("update", "finalize", "load_checkpoint", "init_output_file", "output_data", "output_checkpoint") if mod.find(n)]

    def h(I, fv, args, kw, fr, node):
        m, st = args[0], fr.st
        if not isinstance(m, Ref) or m.kind != "obj":
            return NotImplemented
        t = I.term(I.get_field(st, m, "_time", None), st)
        I.emit("enterfn", fv.name, node, st, data=fv, args=[I.safe_term(a, st) for a in args])
        I.emit("step", fv.name, node, st, args=[t])
        if fv.name in ("update", "load_checkpoint"):
            r = st.heap[m.id]
            st.heap[m.id] = ObjRec(r.cls, dict(r.fields, _time=app("after." + fv.name, t)), r.lazy)
        return NONE
    return c.run_method("run", cls=cls, pre=job_model(cls), override={n: h for n in names}, key=("jobrun", cls))


BARE = sym("$bare", "s")          # an option given without a value


def untext(I, args, kw, fr, node, whole=False):
    """float() / int() of the text of a value is the value"""
    t = I.term(args[0], fr.st) if args else None
    if t is not None and t.op == "app" and t.args[0] == "str" and len(t.args) == 2:
        from ..extern import to_int
        return to_int(t.args[1]) if whole else t.args[1]
    return NotImplemented


def parsed(I, fr, given):
    """what parse_args() returns for these options, by the options the source declares; and the options it does not know"""
    from ..extern import to_int
    out, known = {}, set()
    for e in I.events:
        if not (e.kind == "call" and e.name == ".add_argument") or e.loops:
            continue
        names = [cval(a) for a in e.args if isinstance(a, T) and isc(a) and isinstance(cval(a), str)]
        if not names:
            continue
        kw = dict(e.kwargs or {})

        def k(n, d=None):
            v = kw.get(n)
            return d if v is None else I.term(v, fr.st)
        lg = [n for n in names if n.startswith("--")] or names
        dest = cval(k("dest")) if k("dest") is not None and isc(k("dest")) else lg[0].lstrip("-").replace("-", "_")
        act = cval(k("action")) if k("action") is not None and isc(k("action")) else "store"
        if act in ("version", "help"):
            continue
        for n in lg:
            known.add(n.lstrip("-").replace("-", "_"))
        nm = [n.lstrip("-").replace("-", "_") for n in lg]
        g = next((given[n] for n in nm if given.get(n, NONE) not in (NONE, FALSE)), NONE)
        default = k("default", {"store_true": FALSE, "store_false": TRUE}.get(act, NONE))
        ty = k("type")
        if g is NONE:
            v = default
        elif act in ("store_true", "store_false"):
            v = TRUE if act == "store_true" else FALSE
        elif g is BARE:
            v = k("const", UNDEF)
        elif isc(g) and isinstance(cval(g), str):
            v = g
        elif ty is None or show(ty) == "fn('ext:builtins.str')":
            v = app("str", g) if num(g) is None else C(str(cval(g)))
        elif show(ty) == "fn('ext:builtins.int')":
            v = to_int(g)
        elif show(ty) == "fn('ext:builtins.float')":
            v = g
        else:
            v = app("conv", ty, g)
        out[dest] = v
    return out, [k for k, v in given.items() if v not in (NONE, FALSE) and k not in known]


def session(c, cls, file, kwargs, cli=None, name="in.yml", key=None):
    """constructor of a preprocessor followed by run_jobs; returns the two states"""
    I = c.interp()

    def opener(I, fv, args, kw, fr, node):
        a = args[1] if len(args) > 1 else next(iter(kw.values()), NONE)
        t = I.term(a, fr.st)
        if t is C(name):
            return conv(I, fr.st, file)
        if t is NONE:
            return I.new_dict(fr.st, {})
        # the file of an expanded job holds that job's configuration (P14)
        o = args[0]
        fl, cl = I.get_field(fr.st, o, "_file_list", None), I.get_field(fr.st, o, "_config_list", None)
        fr_, cr = I.rec(fr.st, fl), I.rec(fr.st, cl)
        for x, d in zip(getattr(fr_, "items", None) or [], getattr(cr, "items", None) or []):
            if I.term(x, fr.st) is t:
                e = I.rec(fr.st, d).entries
                return I.new_dict(fr.st, {k: (p, app("reread", I.term(v, fr.st))) for k, (p, v) in e.items()})
        return I.new_dict(fr.st, {})

    def jinit(I, fv, args, kw, fr, node):
        if fv.cls is None or fv.cls.name not in JOBS:
            return NotImplemented
        env = {}
        I.bind(fv, args, kw, fr, env)
        snap = None
        d = env.get("config_dict")
        if isinstance(d, Ref) and d.kind == "dict":
            D = I.rec(fr.st, d)
            if D.base is None:
                snap = {k: (p, I.term(v, fr.st)) for k, (p, v) in D.entries.items()}
        I.emit("jobinit", fv.cls.name, node, fr.st, data=(I.safe_term(args[0], fr.st), snap,
                                                         {k: I.safe_term(v, fr.st) for k, v in env.items()}))
        return NONE

    def jrun(I, fv, args, kw, fr, node):
        if fv.cls is None or not any(q.name == "_BaseJob" for q in fv.cls.mro() if hasattr(q, "name")):
            return NotImplemented
        I.emit("jobrun", "run", node, fr.st, data=I.safe_term(args[0], fr.st))
        return NONE
    I.dispatch_override.update({"_open_yaml": opener, "__init__": jinit, "run": jrun})
    if cli is not None:
        def vars_(I, a, k, fr, node):
            got, un = parsed(I, fr, cli)
            I.unknown_options = un if got else []
            return I.new_dict(fr.st, {x: (TRUE, v) for x, v in (got or cli).items()})
        I.ext_override["builtins.vars"] = vars_
        I.ext_override["builtins.float"] = untext
        I.ext_override["builtins.int"] = lambda I, a, k, fr, node: untext(I, a, k, fr, node, True)
    cl = c.repo.cls(cls)
    st = St({}, {}, ())
    o = I.new_obj(st, cl, "self")
    fv = cl.find("__init__")
    I.run(st, fv, [o] + ([C(name)] if cli is None and file is not None else []), dict(kwargs))
    n = len(I.events)
    rj = cl.find("run_jobs")
    if not st.dead and rj is not None:
        I.run(st, rj, [o])
    c.absorb(I)
    R = Run(c, I, st, o, NONE, rj or fv, n)
    return R


def plainpc(R, e):
    """conditions of an event that are not about folders, the platform or failed calls"""
    out = []
    for p in R.guards(e):
        s = show(p)
        if any(w in s for w in ("isdir", "platform.system", "exc@", "is_dir", "exists", "isinstance")):
            continue
        out.append(p)
    return out


def p15(c):
    mdl = c.repo.cls("DeltaModel")
    for cls in JOBS:
        R = job_new(c, cls)
        if R is None:
            c.unk("%s construction" % cls, "", "not found")
            continue
        w = R.where
        bl = [e for e in R.events if e.kind == "built"]
        if len(bl) != 1:
            c.unk("%s builds one model" % cls, w, "%d models" % len(bl))
            continue
        c.equal("%s: the model is built from the job's own file" % cls, bl[0].data.get("input_file", UNDEF), S("$input_file"), at(bl[0]))
        has = {k: truth(S("$has_" + k)) for k in DUR + ("If",)}
        If = sel(has["If"], S("$If"), ONE)
        t0, dt = sym("model._time"), sym("model._dt")
        want = {"timesteps": mk("mul", S("$timesteps"), dt), "time": mk("mul", S("$time"), If),
                "time_years": mk("mul", mk("mul", S("$time_years"), If), C(86400 * 365.25))}
        end = None
        # which attribute is the end time: the one run() compares the clock with
        RR = job_run(c, cls)
        ups = [e for e in RR.events if e.kind == "step" and e.name == "update"] if RR else []
        attr = None
        if not ups:
            c.unk("%s: update loop" % cls, w, "no update found in run")
        for e in ups:
            n = "%s: the model is updated exactly while its time is below the end time" % cls
            t = e.args[0]
            g = [p for p in e.pc if "exc@" not in show(p)]
            g = [p for p in g if t in subterms(p) or e.loops]
            if not e.loops:
                c.bad(n, at(e), "update is not repeated")
                continue
            cond = [p for p in g if t in subterms(p)]
            other = [p for p in g if t not in subterms(p) and "_resume_checkpoint" not in show(p)]
            ends = {x for p in cond for x in subterms(p) if x.op == "sym" and x.args[0].startswith("self.") and "deltamodel" not in x.args[0]}
            if not cond and counted_down(RR, e):
                c.bad(n, at(e), "repeated %s times, a whole number fixed before the first update" % show(counted_down(RR, e))[:80])
                continue
            if len(ends) != 1:
                c.unk(n, at(e), "end time not identified in %s" % [show(p)[:60] for p in g])
                continue
            attr = next(iter(ends))
            if other:
                c.bad(n, at(e), "only when " + show(other[0])[:100])
                continue
            c.equal(n, and_(*cond), lt(t, attr), at(e))
        # leaving the loop without an exception means the end time has been reached
        fin = [e for e in RR.events if e.kind == "step" and e.name == "finalize"] if RR else []
        if attr is not None and fin:
            e = fin[0]
            t = e.args[0]
            cond = and_(*e.pc)
            sub = {x: FALSE for x in subterms(cond) if x.op == "sym" and str(x.args[0]).startswith("exc@")}
            tt = S("$now")
            cnd = subst(cond, sub)
            for p in RR.I.loops.values():
                for x in list(p.phi.values()) + list(p.out.values()):
                    if x in subterms(cnd):
                        cnd = subst(cnd, {x: tt})
            c.implied("%s: the job ends only at or after the end time" % cls, cnd, le(attr, tt), at(e))
        if attr is None:
            continue
        name = attr.args[0].split(".", 1)[1]
        end = R.field(name)
        for k in DUR:
            only = [has[q] if q == k else not_(has[q]) for q in DUR]
            facts = {has[q]: (TRUE if q == k else FALSE) for q in DUR}
            n = "%s: the end time is the start time plus the duration given as '%s'" % (cls, k)
            a = subst(end, facts)
            c.equal(n, a, mk("add", t0, want[k]), R.last_store(name))
        esc = [x for x in R.escapes() if x.cls.split(".")[-1] == "ValueError"]
        none = and_(*[not_(has[q]) for q in DUR])
        cond = or_(*[and_(*x.st.pc) for x in esc]) if esc else FALSE
        n = "%s: a job without a duration is an error" % cls
        r = None
        try:
            r = implies(none, cond)
            if r is None:
                c.ok(n, w)
            else:
                c.bad(n, w, "no ValueError is raised")
        except (Undecided, RecursionError):
            c.unk(n, w)
        n = "%s: a job with a duration is accepted" % cls
        try:
            if implies(cond, none) is None:
                c.ok(n, w)
            else:
                c.bad(n, w, "ValueError although a duration is given")
        except (Undecided, RecursionError):
            c.unk(n, w)
    p15_args(c)


def counted_down(R, e):
    """number of turns of the counted loop around an update, where it is a quotient cut to a whole number"""
    for L in e.loops:
        L = R.I.loops.get(L)
        it = getattr(L, "iter", None)
        it = R.term(it) if it is not None and not isinstance(it, T) else it
        if isinstance(it, T) and any(x.op in ("app", "aapp", "pw") and x.args[0] in ("int", "floor", "trunc", "round") or x.op == "floordiv" for x in subterms(it)) \
                and not any(x.op in ("app", "aapp", "pw") and x.args[0] == "ceil" for x in subterms(it)):
            return it
    return None


def unread(t):
    """the value read back from a job file: that of the number whose text was written"""
    def val(x):
        return x.args[1] if x.op == "app" and x.args[0] == "str" and len(x.args) == 2 else x
    return subst(t, {x: val(x.args[1]) for x in subterms(t) if x.op == "app" and x.args[0] == "reread"})


def p15_args(c):
    """precedence of arguments over the input file, through to the configuration each job receives"""
    keys = DUR + ("If",)
    base = {"out_dir": S("$out")}
    for par in (None, C(2)):
        for nm, ex in (("single job", {}), ("matrix of 2 jobs", {"matrix": {"a": sy("a", 2)}}), ("set of 2 jobs", {"set": [{"a": x} for x in sy("a", 2)]}),
                       ("ensemble of 2 jobs", {"ensemble": 2})):
            for kind in ("call", "command line"):
                for both in (True, False):
                    file = dict(base, **ex)
                    if par is not None:
                        file["parallel"] = par
                    for k in keys:
                        file[k] = S("$file_" + k)
                    given = keys if both else ("time",)
                    if kind == "call":
                        R = session(c, "Preprocessor", file, {k: S("$arg_" + k) for k in given})
                        val = {k: S("$arg_" + k) for k in given}
                    else:
                        cli = {k: (S("$arg_" + k) if k in given else NONE) for k in keys}
                        cli.update(config=C("in.yml"), dryrun=FALSE, parallel=NONE)
                        R = session(c, "PreprocessorCLI", file, {}, cli=cli)
                        val = {k: S("$arg_" + k) for k in given}
                    n0 = "%s, %s, %s arguments, %s: " % (nm, kind, "all" if both else "some", "parallel" if par is not None else "serial")
                    if R.st.dead:
                        c.bad(n0 + "runs", R.where, "always raises")
                        continue
                    if getattr(R.I, "unknown_options", None):
                        c.bad(n0 + "the options are accepted", R.where, "option --%s is not declared" % R.I.unknown_options[0])
                        continue
                    ji = [e for e in R.events if e.kind == "jobinit"]
                    want = 1 if not ex else 2
                    if len(ji) != want or any(e.loops for e in ji):
                        (c.unk if any(e.loops for e in ji) else c.bad)(n0 + "jobs built", R.where, "%d jobs" % len(ji))
                        continue
                    for e in ji:
                        snap = e.data[1]
                        if snap is None:
                            c.unk(n0 + "job configuration", at(e), "not resolved")
                            continue
                        for k in keys:
                            got = snap.get(k)
                            want_v = val[k] if k in val else S("$file_" + k)
                            ob = n0 + "'%s' comes from %s" % (k, "the argument" if k in val else "the file")
                            if got is None:
                                c.bad(ob, at(e), "entry missing")
                                continue
                            v = unread(got[1])
                            if k == "If" and v.op == "app" and v.args[0] == "str":
                                v = v.args[1]          # the job takes the number from the text
                            if k == "timesteps":
                                v = subst(v, {x: S("$arg_timesteps") for x in subterms(v) if show(x) == "int($arg_timesteps)"})
                            facts = [not_(mk("eq", S("$arg_" + q), NONE)) for q in keys]
                            v = sel_present(got[0], v)
                            v = subst(v, {mk("eq", S("$arg_" + q), NONE): FALSE for q in keys})
                            c.equal(ob, v, want_v, at(e))
    # values of the job itself
    for par in (None, C(2)):
        for nm, ex in (("matrix", {"matrix": {"timesteps": sy("n", 2)}}), ("set", {"set": [{"timesteps": x} for x in sy("n", 2)]})):
            for verb in (ZERO, S("$verbose")):
                R = session(c, "Preprocessor", dict(base, verbose=verb, **dict(ex, **({} if par is None else {"parallel": par}))), {})
                ji = [e for e in R.events if e.kind == "jobinit"]
                ob = "%s of durations, %s: " % (nm, "serial" if par is None else "parallel")
                if len(ji) != 2 or any(e.loops for e in ji) or any(e.data[1] is None for e in ji):
                    c.unk(ob + "job configuration", R.where, "not resolved")
                    continue
                for i, e in enumerate(ji):
                    got = e.data[1].get("timesteps")
                    if got is None:
                        c.bad(ob + "job %d has its own duration" % i, at(e), "entry missing")
                    else:
                        c.equal(ob + "job %d has its own duration" % i, sel_present(got[0], unread(got[1])), S("n%d" % i), at(e))
    # dry run
    for src, ex in itertools.product(("argument", "file", "command line"),
                                     ({"matrix": {"a": sy("a", 2)}}, {"set": [{"a": x} for x in sy("a", 2)]}, {"ensemble": 2}, {})):
        for val in (TRUE,):
            file = dict(base, timesteps=S("$file_timesteps"), verbose=S("$verbose"), **ex)
            if src == "file":
                file["dryrun"] = val
                R = session(c, "Preprocessor", file, {})
                R2 = session(c, "PreprocessorCLI", file, {}, cli={"config": C("in.yml"), "dryrun": FALSE, "timesteps": NONE, "time": NONE, "time_years": NONE, "If": NONE, "parallel": NONE})
                rs = [R, R2]
            elif src == "argument":
                rs = [session(c, "Preprocessor", file, {"dryrun": val}), session(c, "Preprocessor", dict(file, dryrun=FALSE), {"dryrun": val})]
            else:
                rs = [session(c, "PreprocessorCLI", f, {}, cli={"config": C("in.yml"), "dryrun": val, "timesteps": NONE, "time": NONE, "time_years": NONE, "If": NONE, "parallel": p})
                      for f in (file, dict(file, dryrun=FALSE)) for p in (NONE, C(2))]
            for i, R in enumerate(rs):
                ob = "a dry run requested by %s runs no job (%s, %d)" % (src, next(iter(ex), "single"), i)
                e = [e for e in R.events if e.kind in ("jobinit", "jobrun") or e.kind == "call" and e.name in (".start", ".run")]
                if e:
                    c.bad(ob, at(e[0]), "%s happens during a dry run" % e[0].kind)
                else:
                    c.ok(ob, R.where)
    # without a dry run every job is run
    R = session(c, "Preprocessor", dict(base, timesteps=S("$t"), dryrun=TRUE, matrix={"a": sy("a", 2)}), {"dryrun": FALSE})
    e = [e for e in R.events if e.kind == "jobrun"]
    if len(e) == 2 and not any(x.loops for x in e):
        c.ok("an argument can cancel the dry run of the file", R.where)
    elif any(x.loops for x in e) or jobs_of(R)[0] is None:
        c.unk("an argument can cancel the dry run of the file", R.where, "job list not resolved")
    else:
        c.bad("an argument can cancel the dry run of the file", R.where, "%d of 2 jobs run" % len(e))


def sel_present(cond, v):
    return v if norm(cond) is TRUE else sel(subst(cond, {x: FALSE for x in subterms(cond) if x.op == "eq" and x.args[1] is NONE}), v, UNDEF)


# --------------------------------------------------------------------- P39
OUT_STEPS = ("init_output_file", "output_data", "output_checkpoint", "load_checkpoint")


def recorder(I, fv, args, kw, fr, node):
    env = {}
    I.bind(fv, list(args), dict(kw or {}), fr, env)
    I.emit("step", fv.name, node, fr.st, data={k: I.safe_term(v, fr.st) for k, v in env.items() if k != "self"})
    return NONE


def opening(evs, until=None):
    out = []
    for e in evs:
        if e.kind != "step":
            continue
        if until and e.name == until:
            break
        out.append(e)
    return out


def p39(c):
    """what a job records before its first update is what a model built and updated directly records"""
    from .determ import job_model
    ini = c.method("__init__", "DeltaModel")
    if ini is None:
        return c.unk("model construction", "", "not found")
    steps = [n for n in OUT_STEPS + ("update", "finalize") if c.method(n, "DeltaModel")]
    have = "defer_output" in [x.arg for x in ini.node.args.args + ini.node.args.kwonlyargs]
    built, conds = {}, {}
    for d in (FALSE, TRUE):
        for res in (FALSE, TRUE):
            def pre(I, st, o, res=res):
                setf(I, st, o, _resume_checkpoint=res)

            def keep(I, fv, args, kw, fr, node):
                return NONE
            ov = {n: recorder for n in steps}
            ov.update({n: keep for n in ("import_files", "process_input_to_model", "init_output_infrastructure", "init_logger", "determine_random_seed",
                                         "create_other_variables", "create_domain", "init_sediment_routers", "init_subsidence") if c.method(n, "DeltaModel")})
            R = c.run_method("__init__", kw={"defer_output": d} if have else {}, pre=pre, override=ov, key=("p39", d, res))
            built[d, res] = None if R is None else [e for e in R.events if e.kind == "step"]
            for e in built[d, res] or []:
                conds[e] = R.guards(e)
    for cls in JOBS:
        N = job_new(c, cls)
        bl = [e for e in N.events if e.kind == "built"] if N is not None else []
        if len(bl) != 1:
            c.unk("%s: output" % cls, N.where if N else "", "model construction not found")
            continue
        d0 = bl[0].data.get("defer_output", FALSE)
        cond = [] if d0 in (TRUE, FALSE) else opaque(d0, FALSE)
        for res, d in [(r, x) for r in (FALSE, TRUE) for x in (FALSE, TRUE)]:
            if d0 in (TRUE, FALSE) and d is not d0:
                continue
            if cond:
                d = None
            nm = "%s, %s: " % (cls, "resuming" if res is TRUE else "new run")
            R = c.run_method("run", cls=cls, pre=job_model(cls, res), override={n: recorder for n in steps}, key=("p39run", cls, res))
            if R is None or d is None or built[d, res] is None:
                c.unk(nm + "output", N.where, "not resolved")
                continue
            ev = built[d, res] + opening(R.events, "update")
            for e in opening(R.events, "update"):
                conds[e] = [p for p in R.guards(e) if "exc@" not in show(p)]
            odd = [e for e in ev if e.loops or conds[e]]
            if odd:
                sm = [S("self.deltamodel." + x) for x in ("_save_metadata", "_save_any_grids", "_save_checkpoint")]
                need = {"init_output_file": or_(truth(sm[0]), truth(sm[1])), "output_checkpoint": truth(sm[2])}
                only = [e for e in odd if not e.loops and e.name in need]
                for e in only:
                    try:
                        miss = implies(need[e.name], and_(*conds[e]))
                    except (Undecided, RecursionError):
                        miss = None
                    if miss is not None and not opaque(and_(*conds[e]), need[e.name]):
                        c.bad(nm + "output steps are taken unconditionally", at(e), "%s only when %s%s" % (e.name, show(conds[e][0])[:80], case_text(miss[0])))
                        break
                else:
                    only = None
                if only:
                    continue
                g = conds[odd[0]]
                (c.bad if not odd[0].loops and not any("_save_" in show(p) for p in g) else c.unk)(nm + "output steps are taken unconditionally", at(odd[0]), "only when %s" % (show(g[0])[:80] if g else "in a loop"))
                continue
            names = [e.name for e in ev]
            w = at(ev[-1]) if ev else R.where
            loads = [e for e in ev if e.name == "load_checkpoint"]
            opened = [e for e in loads if all(v is not TRUE for v in (e.data or {}).values())]
            if res is FALSE:
                ob = nm + "the output file is initialised once and the initial state saved into it before the first update"
                if names.count("init_output_file") != 1:
                    c.bad(ob, w, "initialised %d times" % names.count("init_output_file"))
                elif names.count("output_data") != 1:
                    c.bad(ob, w, "initial state saved %d times" % names.count("output_data"))
                elif names.index("output_data") < names.index("init_output_file"):
                    c.bad(ob, w, "saved before the file is initialised")
                else:
                    c.ok(ob, w)
                ob = nm + "the initial checkpoint is written"
                if names.count("output_checkpoint") != 1:
                    c.bad(ob, w, "written %d times" % names.count("output_checkpoint"))
                else:
                    c.ok(ob, w)
                if loads:
                    c.bad(nm + "no checkpoint is loaded", at(loads[0]))
                else:
                    c.ok(nm + "no checkpoint is loaded", w)
            else:
                ob = nm + "the checkpoint is loaded with its output file once, before the first update"
                if not loads:
                    c.bad(ob, w, "never loaded")
                elif any(v not in (TRUE, FALSE) for v in (loads[-1].data or {}).values()):
                    v = [v for v in loads[-1].data.values() if v not in (TRUE, FALSE)][0]
                    (c.unk if opaque(v, FALSE) else c.bad)(ob, at(loads[-1]), "opening the file is left out when " + show(v)[:80])
                elif len(opened) != 1 or loads[-1] is not opened[0]:
                    c.bad(ob, at(loads[-1]), "output file opened by %d of %d loads" % (len(opened), len(loads)))
                else:
                    c.ok(ob, at(loads[-1]))
                new = [e for e in ev if e.name in ("init_output_file", "output_data")]
                if new:
                    c.bad(nm + "no new output file is started", at(new[0]), new[0].name)
                else:
                    c.ok(nm + "no new output file is started", w)
            if cls == "_ParallelJob":
                early = [e for e in built[d, res] if e.name in ("init_output_file", "output_data") or e in opened]
                if early:
                    c.bad(nm + "output files are opened in the job's own process", at(early[0]), early[0].name)
                else:
                    c.ok(nm + "output files are opened in the job's own process", w)


# --------------------------------------------------------------------- P16
def p16(c):
    from ..excflow import Flow, GiveUp, RV
    for cls in JOBS:
        k = c.repo.cls(cls)
        fv = k.find("run") if k is not None else None
        if not isinstance(fv, FuncV):
            c.unk("%s.run" % cls, "", "not found")
            continue
        w = "%s:%d (%s)" % (fv.mod.path, fv.node.lineno, fv.qual)
        try:
            f = Flow(c.repo, fv)
            out = f.run()
        except GiveUp as e:
            c.unk("%s.run: exceptional flow" % cls, w, str(e))
            continue
        c.analysed.add(fv.qual)
        c.paths += len(out)
        sites = sorted(f.sites)
        if not any("update()" in s for s in sites):
            c.unk("%s.run: exceptional flow" % cls, w, "no update found")
            continue

        def ob(n, bad, det):
            if bad:
                c.bad("%s: %s" % (cls, n), w, det(bad))
            else:
                c.ok("%s: %s" % (cls, n), w, "%d outcomes, %d call sites" % (len(out), len(sites)))
        esc = [(x, s) for x, s in out if isinstance(x, tuple) and x[1] in RV]
        ob("no runtime or value error leaves the job", esc, lambda b: "a %s raised at %s leaves run" % (b[0][0][1], b[0][1].pending or "?"))
        nf = [s for x, s in out if x == "n" and s.fin == 0]
        ob("the model is finalized on every path that ends normally", nf, lambda b: "a path %s ends without finalize" %
           ("after a failure" if b[0].failed else "without failure"))
        tw = [s for x, s in out if s.fin > 1]
        ob("the model is finalized once", tw, lambda b: "a path finalizes twice")
        un = [s for x, s in out if x == "n" and s.pending]
        ob("every failure is reported", un, lambda b: "a failure raised at %s is neither logged nor sent to the queue" % b[0].pending)
        fa = [s for x, s in out if s.falsely]
        ob("outcomes are reported as what they are", fa, lambda b: "reported at " + b[0].falsely)
        af = [s for x, s in out if s.after]
        ob("no further step is taken after a failure", af, lambda b: "%s is called after a failure" % b[0].after)
        if cls == "_ParallelJob":
            nr = [(x, s) for x, s in out if s.rel == 0]
            ob("the slot is released on every path", nr, lambda b: "a path ending in %s keeps the slot" %
               ("a normal return" if b[0][0] == "n" else "an exception (%s)" % b[0][0][1]))
            dr = [(x, s) for x, s in out if s.rel > 1]
            ob("the slot is released once", dr, lambda b: "a path releases the slot more than once")
    p16_run(c)


def p16_messages(c, R, n0):
    """the failures the jobs sent are all shown"""
    def got(t):
        return [x for x in subterms(t) if x.op in ("app", "aapp", "ext") and "get" in str(x.args[0 if x.op != "ext" else 1]).split(".")[-1] and
                any(y.op == "ext" and "Queue" in str(y.args[1]) for y in subterms(x))]
    ps = []
    for e in R.events:
        if e.kind == "call" and e.name.split(".")[-1] in ("print", "info", "error", "warning", "write"):
            g = [x for a in e.args for x in got(R.term(a))]
            if g:
                ps.append((e, g[0]))
    ob = n0 + "every failure the jobs sent is shown"
    if not ps:
        return c.unk(ob, R.where, "display of messages not found")
    if not any(e.loops for e, _ in ps):
        return c.bad(ob, at(ps[0][0]), "only the first message is read")
    first, hidden = None, []
    for e, g in ps:
        code = mk("idx", g, C("code"))
        own = and_(*[q for q in e.pc if code in subterms(q)])
        rest = [q for q in e.pc if g in subterms(q) and code not in subterms(q)]
        if rest:
            # a failure is sent for the run (stage 1) and for the finalization (stage 2)
            if any(norm(subst(q, {mk("idx", g, C("stage")): C(k)})) is FALSE for q in rest for k in (1, 2)):
                hidden.append((e, rest[0]))
                continue
            return c.unk(ob, at(e), "shown only when " + show(rest[0])[:80])
        try:
            r = implies(eq(code, ONE), own)
        except (Undecided, RecursionError):
            return c.unk(ob, at(e), "condition not decided")
        if r is None and any("msg" in str(x.args[0]) for a in e.args for x in subterms(R.term(a)) if isc(x)):
            return c.ok(ob, at(e))
        if r is None:
            # shown as a whole, in a way that is not a template naming its entries?
            t = subst(mk("tuple", *[R.term(a) for a in e.args]), {x: NONE for a in e.args for x in subterms(R.term(a)) if
                      x.op == "idx" and x.args[0] is g and isc(x.args[1]) or x.op in ("app", "aapp") and str(x.args[0]).endswith("format_map")})
            if g in subterms(t):
                return c.unk(ob, at(e), "text not resolved")
        first = first or e
    if hidden and len(hidden) < len(ps) - 1:
        return c.unk(ob, at(hidden[0][0]), "shown only when " + show(hidden[0][1])[:80])
    if hidden:
        return c.bad(ob, at(hidden[0][0]), "a message with code 1 is shown with its reason only when " + show(hidden[0][1])[:80])
    c.bad(ob, at(first), "a message with code 1 is not shown with its reason")


def p16_run(c):
    base = {"out_dir": S("$out"), "timesteps": S("$t")}
    none = {"config": C("in.yml"), "dryrun": FALSE, "timesteps": NONE, "time": NONE, "time_years": NONE, "If": NONE}
    for njobs, ex in ((1, {}), (3, {"matrix": {"a": sy("a", 3)}}), (4, {"set": [{"a": x} for x in sy("a", 4)]})):
        for src, par in [("", p) for p in (None, FALSE, TRUE, C(1), C(2), C(5))] + \
                [("command line ", p) for p in (None, TRUE, C(1), C(2), C(5))] + [("argument over file ", p) for p in (FALSE, C(2))]:
            cfg = dict(base, **ex)
            n0 = "%d jobs, %sparallel=%s: " % (njobs, src, show(par) if par is not None else "unset")
            if src == "command line ":
                R = session(c, "PreprocessorCLI", cfg, {}, cli=dict(none, parallel=NONE if par is None else BARE if par is TRUE else par))
                if getattr(R.I, "unknown_options", None):
                    c.bad(n0 + "the option is accepted", R.where, "option --%s is not declared" % R.I.unknown_options[0])
                    continue
            elif src:
                R = session(c, "Preprocessor", dict(cfg, parallel=C(3) if par is FALSE else FALSE), {"parallel": par})
            else:
                if par is not None:
                    cfg["parallel"] = par
                R = session(c, "Preprocessor", cfg, {})
            if R.st.dead:
                c.bad(n0 + "jobs are run", R.where, "always raises")
                continue
            ev = R.events
            init = [e for e in ev if e.kind == "jobinit"]
            if any(e.loops for e in init):
                c.unk(n0 + "every job is built once", R.where, "job list not resolved")
                continue
            ids = [e.data[0] for e in init]
            if len(init) != njobs or len(set(ids)) != njobs:
                c.bad(n0 + "every job is built once", R.where, "%d jobs built" % len(init))
                continue
            c.ok(n0 + "every job is built once", at(init[0]))
            fl = [e.data[2].get("input_file") for e in init]
            if len(set(fl)) != njobs:
                c.bad(n0 + "every job has its own file", at(init[0]), "a file is used twice")
            else:
                c.ok(n0 + "every job has its own file", at(init[0]))
            for e in init:
                g = plainpc(R, e)
                if g:
                    c.bad(n0 + "jobs are built unconditionally", at(e), "only when " + show(g[0])[:80])
            parallel = par is not None and par is not FALSE
            if parallel and any(e.name != "_ParallelJob" for e in init) or not parallel and any(e.name != "_SerialJob" for e in init):
                c.bad(n0 + "the requested mode is used", at(init[0]), "built as " + init[0].name)
                continue
            c.ok(n0 + "the requested mode is used", at(init[0]))
            if not parallel:
                runs = [e for e in ev if e.kind == "jobrun"]
                p16_each(c, R, n0 + "every job is run once", runs, ids, [e.data for e in runs])
                continue
            st = [e for e in ev if e.kind == "call" and e.name == ".start"]
            jn = [e for e in ev if e.kind == "call" and e.name == ".join" and e.data in ids]
            p16_each(c, R, n0 + "every job is started once", st, ids, [e.data for e in st])
            p16_each(c, R, n0 + "every job is waited for", jn, ids, [e.data for e in jn], atleast=True)
            for e in jn:
                lim = [x for x in list(e.args) + list(dict(e.kwargs or ()).values()) if R.term(x) is not NONE]
                if lim and not e.loops and not any(x.kind == "call" and x.name in (".is_alive", ".exitcode") for x in ev):
                    c.bad(n0 + "every job is waited for", at(e), "the wait ends after %s s" % show(R.term(lim[0]))[:30])
            if jn and st and min(e.seq for e in jn) < max(e.seq for e in st):
                # waiting inside the start loop serialises the jobs; still correct
                pass
            p16_messages(c, R, n0)
            sem = [e for e in ev if e.kind == "call" and e.name.split(".")[-1] in ("Semaphore", "BoundedSemaphore")]
            if len(sem) != 1 or not sem[0].args:
                c.unk(n0 + "slots", R.where, "%d semaphores" % len(sem))
                continue
            lim = R.term(sem[0].args[0])
            if par is TRUE:
                cpu = {x for x in subterms(lim) if x.op == "ext" and "cpu_count" in str(x.args[1])}
                ob = n0 + "at least one slot and no more than processors"
                vals = [(k, num(norm(subst(lim, {x: C(k) for x in cpu})))) for k in range(1, 65)]
                wrong = [(k, v) for k, v in vals if v is not None and not 1 <= v <= k]
                if wrong:
                    c.bad(ob, at(sem[0]), "%s slots with %d processors" % (wrong[0][1], wrong[0][0]))
                elif any(v is None for _, v in vals):
                    c.unk(ob, at(sem[0]), show(lim)[:80])
                else:
                    c.ok(ob, at(sem[0]), "1 to 64 processors")
            else:
                k = num(par)
                ob = n0 + "no more slots than requested"
                cpu = {x for x in subterms(lim) if x.op == "ext" and "cpu_count" in str(x.args[1])}
                over = [(m, v) for m in range(1, 65) if cpu for v in [num(norm(subst(lim, {x: C(m) for x in cpu})))] if v is not None and not 1 <= v <= k]
                if over:
                    c.bad(ob, at(sem[0]), "%s slots for %s requested, with %d processors" % (over[0][1], k, over[0][0]))
                elif num(lim) is None:
                    c.unk(ob, at(sem[0]), show(lim)[:80])
                elif num(lim) > k or num(lim) < 1:
                    c.bad(ob, at(sem[0]), "%s slots for %s requested" % (num(lim), k))
                else:
                    c.ok(ob, at(sem[0]))
            acq = [e for e in ev if e.kind == "call" and e.name == ".acquire"]
            rel = [e for e in ev if e.kind == "call" and e.name == ".release"]
            ok = True
            for i, s in enumerate(sorted(st, key=lambda e: e.seq)):
                if len([a for a in acq if a.seq < s.seq and not plainpc(R, a)]) < i + 1:
                    c.bad(n0 + "a slot is taken before each start", at(s), "job %d starts without a slot of its own" % i)
                    ok = False
                    break
            if ok and len(acq) > len(st):
                c.bad(n0 + "a slot is taken before each start", at(acq[-1]), "more slots taken than jobs started: the runner can block for ever")
                ok = False
            for a in acq:
                if a.kwargs or a.args and any(x is FALSE for x in a.args):
                    c.bad(n0 + "a slot is taken before each start", at(a), "the wait for a slot can give up")
                    ok = False
            if rel:
                c.bad(n0 + "only the job gives its slot back", at(rel[0]), "the runner releases a slot itself")
            if ok:
                c.ok(n0 + "a slot is taken before each start", R.where)
            sid = sem[0]
            for e in init:
                s = e.data[2].get("sema")
                if s is None:
                    c.unk(n0 + "jobs share the slots", at(e), "no slot argument")
                elif not any(x.op == "ext" and "Semaphore" in str(x.args[1]) for x in subterms(s)):
                    c.bad(n0 + "jobs share the slots", at(e), "job gets " + show(s)[:60])


def p16_each(c, R, ob, evs, ids, got, atleast=False):
    if any(e.loops for e in evs):
        c.unk(ob, R.where, "not resolved")
        return
    for i in ids:
        k = [e for e, g in zip(evs, got) if g is i]
        k2 = [e for e in k if not plainpc(R, e)]
        if not k2 or len(k2) > 1 and not atleast:
            c.bad(ob, at(k[0]) if k else R.where, "job %d of %d: %d times%s" % (ids.index(i), len(ids), len(k2),
                                                                                 ", only when " + show(plainpc(R, k[0])[0])[:60] if k and not k2 else ""))
            return
    c.ok(ob, at(evs[0]))


# --------------------------------------------------------------------- P17
def ends_of(t):
    """values a term can take where it branches"""
    return ends_of(t.args[1]) + ends_of(t.args[2]) if t.op == "sel" else [t]


def p17(c):
    # a job's updates draw from the generator whose state the job restores, and never re-initialise it
    from .state import hist
    U = hist(c)
    wrong = [e for e in U.events if e.kind == "rng" and (not e.jit or e.name.split(".")[-1] in ("seed", "default_rng", "RandomState", "set_state"))]
    ob = "updates draw only from the random state the job restores"
    for e in wrong[:3]:
        c.bad(ob, at(e), "%s %s" % (e.name, "re-initialises the generator" if e.jit else "is another generator, shared by all jobs of the process"))
    if not wrong:
        c.ok(ob, U.where)
    for cls in JOBS:
        R = job_new(c, cls)
        RR = job_run(c, cls)
        if R is None or RR is None:
            c.unk("%s keeps its random state" % cls, "", "not found")
            continue
        sets = [e for e in RR.events if e.kind == "call" and e.name.endswith("rnd_set_state")]
        w = RR.where
        n = "%s.run restores a random state before anything else" % cls
        steps = [e for e in RR.events if e.kind == "step" or e.kind == "rng"]
        if not sets:
            c.bad(n, w, "run never restores the random state the job was built with: it continues from whatever ran before")
            continue
        e = sets[0]
        g = [p for p in RR.guards(e) if "exc@" not in show(p)]
        if g:
            c.bad(n, at(e), "only when " + show(g[0])[:80])
        elif steps and steps[0].seq < e.seq:
            c.bad(n, at(e), "%s runs before the state is restored" % steps[0].name)
        elif e.loops:
            c.bad(n, at(e), "restored inside a loop")
        else:
            c.ok(n, at(e))
        if len(sets) > 1:
            c.bad("%s.run restores the state once" % cls, at(sets[1]), "the state is set again at " + at(sets[1]))
        else:
            c.ok("%s.run restores the state once" % cls, at(e))
        n = "%s.run leaves the restored state alone" % cls
        upd = [x for x in RR.events if x.kind == "step" and x.name.split(".")[-1] == "update"]
        other = [x for x in RR.events if x.kind == "rng" and x.jit and x.seq > e.seq and
                 (x.name.split(".")[-1] == "seed" or not upd or x.seq < upd[0].seq or x.loops)]
        if other:
            c.bad(n, at(other[0]), "%s between the restored state and the updates" % other[0].name)
        else:
            c.ok(n, at(e))
        v = e.args[-1] if e.args else UNDEF
        attrs = {x.args[0] for x in subterms(v) if x.op == "sym" and x.args[0].startswith("self.")}
        n = "%s.run restores the state the job's own construction left" % cls
        if len(attrs) != 1:
            (c.bad if not attrs else c.unk)(n, at(e), "restores " + show(v)[:80])
            continue
        a = attrs.pop().split(".", 1)[1]
        if v is not sym("self." + a) and norm(v) is not norm(c.s(a)):
            made = v.op in ("tuple", "list", "arr") and any(isinstance(x, T) and x.op == "c" for x in v.args)
            (c.bad if made else c.unk)(n, at(e), "restores " + show(v)[:80])
            continue
        if "." in a:
            c.unk(n, at(e), a)
            continue
        got = R.field(a)
        bl = [x for x in R.events if x.kind == "built"]
        gets = [x for x in R.events if x.kind == "call" and x.name.endswith("rnd_get_state")]
        lv = ends_of(got)
        if not all(any(x.op == "ext" and str(x.args[1]).endswith("rnd_get_state") for x in subterms(g)) for g in lv):
            c.bad(n, R.last_store(a), "'%s' is %s" % (a, show(got)[:80]))
        elif bl and gets and not any(x.seq > bl[-1].seq for x in gets):
            c.bad(n, R.last_store(a), "the state is taken before the model (and its seed) is set up")
        else:
            late = [x for x in R.events if bl and x.seq > bl[-1].seq and x.seq < gets[-1].seq and x.kind in ("rng",)]
            cond = [x for x in R.events if x.kind == "setattr" and x.name == a]
            g = R.guards(cond[-1]) if cond else ()
            g = [p for p in g if "$has_" not in show(p)]
            if late:
                c.bad(n, at(late[0]), "random numbers are drawn between the model's construction and the copy")
            elif g:
                c.bad(n, at(cond[-1]), "only when " + show(g[0])[:60])
            else:
                c.ok(n, R.last_store(a))
        # nothing draws while a job waits to run is not needed: the state is restored from the copy


RULES = {
    "P14": {"fns": [p14], "min": 500, "level": "other",
            "explain": "Abstract interpretation of the expansion code over specifications of fixed shape whose values are all unknowns: the "
                       "resulting job table (configurations, folders, seeds, written lines) is compared with the requested product; every "
                       "malformed class has no normal exit. Bounded: shapes listed in the rule, values unbounded."},
    "P38": {"fns": [p38], "min": 80, "level": "other",
            "explain": "Abstract interpretation of the expansion code over specifications of fixed shape whose values are unknowns: the array "
                       "handed to the table writer is compared cell by cell with the configurations of the jobs, column by column with "
                       "the heading. Bounded: shapes listed in the rule, values unbounded."},
    "P39": {"fns": [p39], "min": 10, "level": "other",
            "explain": "Typestate rule over the composed traces 'construction as the job requests it' followed by 'run up to the first update' "
                       "for both job classes, resuming or not: each output step occurs exactly as often and in the order required."},
    "P15": {"fns": [p15], "min": 150, "level": "other",
            "explain": "Value-flow summaries of the job constructor (end time for every presence of the duration entries), of the loop in run "
                       "(guard and exit condition), and of constructor + run_jobs for the Python and command-line entry points with "
                       "unknown values: the configuration each job receives is compared with 'argument else file'; effect rule for dry runs."},
    "P16": {"fns": [p16], "min": 60, "level": "other",
            "explain": "Exceptional-flow typestate analysis of the run methods (every call on the model may raise a runtime, value or other "
                       "error; release, finalize and report counted on every outcome) and event-order rule over run_jobs for job lists of "
                       "1, 3 and 4 jobs and all kinds of the parallel setting."},
    "P17": {"fns": [p17], "min": 6, "level": "other",
            "explain": "Dataflow rule: the random state restored first in run is the copy taken after the job's own model was built, "
                       "unconditionally, and nothing is drawn in between."},
}
