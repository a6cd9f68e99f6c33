"""Rules about the figures written with every record."""
import re

from ..core import *
from .output import FIGS, exists_atom, full_lists, lists, props_of

DRAW = {".pcolormesh", ".imshow", ".pcolor", ".pcolorfast", ".contourf"}
MAKE = {"matplotlib.pyplot.subplots", "matplotlib.pyplot.figure", "matplotlib.figure.Figure"}
WIDTH = re.compile(r"^(?:0>|0)(\d+)d?$")


def text(t):
    """a string as a list of literal pieces and ('n', value, padded to)"""
    if isc(t) and isinstance(cval(t), str):
        return [cval(t)]
    if t.op == "app":
        n, a = t.args[0], t.args[1:]
        if n in ("concat", "stradd"):
            return [p for x in a for p in text(x)]
        if n == "pathjoin":
            out = []
            for k, x in enumerate(a):
                out += (["/"] if k else []) + text(x)
            return out
        if n == "str" and len(a) == 1:
            return text(a[0])
        if n == "str" and len(a) == 2 and isc(a[0]) and isinstance(cval(a[0]), str):
            m = re.match(r"^([^%]*)%0(\d+)d([^%]*)$", cval(a[0]))
            v = a[1].args[0] if a[1].op == "tuple" and len(a[1].args) == 1 else a[1]
            if m:
                return [x for x in (m.group(1), ("n", v, int(m.group(2))), m.group(3)) if x]
        if n in ("m.zfill", "m.rjust") and len(a) >= 2 and isc(a[1]):
            if n == "m.rjust" and not (len(a) == 3 and a[2] is C("0")):
                return [t]
            r = text(a[0])
            if len(r) == 1 and isinstance(r[0], T):
                return [("n", r[0], int(cval(a[1])))]
        if n == "fmt" and len(a) == 2 and isc(a[1]):
            m = WIDTH.match(str(cval(a[1])))
            if m:
                return [("n", a[0], int(m.group(1)))]
            if cval(a[1]) in ("", "d", "s"):
                return [a[0]]
        if n == "format" and len(a) == 2 and isc(a[1]):
            return text(app("fmt", a[0], a[1]))
        if n == "str.format" and isc(a[0]) and all(x.op != "kv" for x in a[1:]):
            out, k = [], 0
            for lit, _, spec in re.findall(r"([^{]*)(?:\{(\d*)(?::([^}]*))?\}|$)", cval(a[0])):
                if lit:
                    out.append(lit)
                if k < len(a) - 1 and (_ or spec or ("{" in cval(a[0]) and not lit == cval(a[0]))):
                    i = int(_) if _ else k
                    k += 1
                    if i < len(a) - 1:
                        out += text(app("fmt", a[1 + i], C(spec))) if spec else text(a[1 + i])
            return out
    return [t]


def cases(t):
    """the values of a conditional expression"""
    if t.op == "sel":
        return cases(t.args[1]) + cases(t.args[2])
    ss = [x for x in subterms(t) if x.op == "sel"]
    if ss and t.op == "app":
        s = ss[0]
        return cases(subst(t, {s: s.args[1]})) + cases(subst(t, {s: s.args[2]}))
    return [t]


def joined(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def odd(ps):
    """pieces of a name the analysis cannot read"""
    return [p for p in ps if isinstance(p, T) and p.op not in ("sym",)]


def makers(t):
    return {x for x in subterms(t) if x.op == "ext" and len(x.args) > 1 and x.args[1] in MAKE}


def figures(custom):
    def pre(I, st, o):
        r = st.heap[I.get_field(st, o, "_save_fig_list", None).id]
        e = dict(r.entries)
        for k, a in custom.items():
            e[k] = (TRUE, I.new_list(st, (C(a), C("1"))))
        st.heap[I.get_field(st, o, "_save_fig_list", None).id] = DictRec(e, r.base)
    return pre


def p41(c):
    def pre(I, st, o):
        full_lists(c, [p for p in props_of(c) if p.endswith("figs")])(I, st, o)
        figures({"$own": "custom_attr"})(I, st, o)
    R = c.run_method("output_data", pre=pre, key="p41")
    if R is None:
        return c.unk("figures", "", "output_data not found")
    want = {n: a for d in FIGS.values() for n, a in d.items()}
    want["$own"] = "custom_attr"
    due = le(c.sp("save_dt"), c.sp("save_time_since_data"))
    si, seq = c.sp("save_iter"), truth(c.s("_save_figs_sequential"))
    saves = [e for e in R.events if e.kind == "call" and e.name == ".savefig"]
    other = [e for e in R.events if e.kind == "call" and e.name in ("matplotlib.pyplot.savefig", "matplotlib.pyplot.imsave")]
    draws = [e for e in R.events if e.kind == "call" and e.name in DRAW]
    made = [e for e in R.events if e.kind == "call" and e.name in MAKE]
    closes = [e for e in R.events if e.kind == "call" and e.name in ("matplotlib.pyplot.close", ".clf", ".close")]
    titles = [e for e in R.events if e.kind == "call" and e.name in (".set_title", ".suptitle")]
    if other:
        return c.unk("figures", at(other[0]), "saved through the current figure")
    found = {}
    for e in saves:
        f = R.term(e.data)
        m = makers(f)
        d = [x for x in draws if m and makers(R.term(x.data)) & m]
        found.setdefault(None if not d else R.term(d[-1].args[-1] if len(d[-1].args) != 2 else d[-1].args[0]), []).append((e, f, m, d))
    lost = found.pop(None, [])
    for n, a in want.items():
        ob = "figure: '%s' is saved with every record, once" % n
        es = found.pop(c.s(a), [])
        if not es:
            if lost:
                c.unk(ob, at(lost[0][0]), "which data the figure shows was not recognised")
            elif found or not saves:
                c.bad(ob, at(saves[0]) if saves else R.where, "no figure of the live '%s' is saved" % a)
            else:
                c.bad(ob, R.where, "no figure of the live '%s' is saved" % a)
            continue
        names = {}
        for q, lab in ((TRUE, "numbered"), (FALSE, "latest")):
            for e, f, m, d in es:
                p = subst(R.term(e.args[0]) if e.args else R.term(e.kwargs.get("fname", NONE)), {seq: q})
                names.setdefault(lab, []).append((e, [joined(text(x)) for x in cases(p)]))
        for lab, tail in (("numbered", [("n", si, 5), ".png"]), ("latest", ["latest.png"])):
            w = joined([c.s("prefix"), "/", n + "_"] + tail)
            ob2 = "figure: file name of '%s', %s" % (n, lab)
            for e, got in [(e, g) for e, p in names[lab] for g in p]:
                if got == w:
                    c.ok(ob2, at(e))
                elif odd(got):
                    c.unk(ob2, at(e), "name not read: %r" % (odd(got)[0],))
                else:
                    c.bad(ob2, at(e), "saved as %s" % "".join(p if isinstance(p, str) else "{%s}" % (show(p) if isinstance(p, T) else "%s padded to %d" % (show(p[1]), p[2])) for p in got))
        if len(es) > 1:
            c.unk(ob, at(es[1][0]), "several places save it")
        else:
            e = es[0][0]
            ex = [g for g in R.guards(e) if exists_atom(g)]
            if ex:
                c.bad(ob, at(e), "only when " + show(ex[0])[:120])
            else:
                c.implied(ob, due, and_(*R.guards(e)), at(e), why="not saved")
        for e, f, m, d in es:
            sw = swallowed(e)
            if sw:
                (c.bad if sw[1] else c.unk)("figure: a figure of '%s' that cannot be saved is an error" % n, at(e), "caught and dropped in %s" % sw[0])
            x = d[-1]
            if len(x.args) == 3:
                c.equal("figure: '%s' lies at its cross-stream coordinates" % n, R.term(x.args[0]), c.s("X"), at(x))
                c.equal("figure: '%s' lies at its downstream coordinates" % n, R.term(x.args[1]), c.s("Y"), at(x))
            if x.seq > e.seq:
                c.bad("figure: '%s' is drawn before it is saved" % n, at(x), "drawn after saving")
            tt = [t for t in titles if makers(R.term(t.data)) & m and t.seq < e.seq]
            ob3 = "figure: the title of '%s' tells the present time" % n
            if not tt:
                c.unk(ob3, at(e), "no title found")
            else:
                ok = any(y is c.sp("time") for t in tt for y in subterms(R.term(t.args[0])))
                raw = [y for t in tt for y in subterms(R.term(t.args[0])) if y.op == "sym"]
                if ok:
                    c.ok(ob3, at(tt[0]))
                else:
                    c.bad(ob3, at(tt[0]), "shows %s" % show(R.term(tt[0].args[0])))
            ob4 = "figure: '%s' is closed once saved" % n
            nxt = min([y.seq for y in made if y.seq > e.seq], default=1 << 60)
            cl = [y for y in closes if y.seq > e.seq and (
                (y.name == "matplotlib.pyplot.close" and ((not y.args and y.seq < nxt) or (y.args and (makers(R.term(y.args[0])) & m or R.term(y.args[0]) is C("all"))))))]
            if not cl:
                c.unk(ob4, at(e), "not closed in a way the analysis knows") if closes else c.bad(ob4, at(e), "stays open")
            else:
                g = R.guards(cl[0])
                c.implied(ob4, and_(*R.guards(e)), or_(*[and_(*R.guards(y)) for y in cl]), at(cl[0]), why="stays open")
    for t, es in found.items():
        c.bad("figure: every figure shows a registered attribute as it is", at(es[0][0]), "shows %s" % show(t)[:120]) \
            if not any(x.op in ("unk", "lout", "phi") for x in subterms(t)) else \
            c.unk("figure: every figure shows a registered attribute", at(es[0][0]), "shows %s" % show(t)[:120])
    # nothing registered, nothing saved
    E = c.run_method("output_data", pre=lambda I, st, o: lists(I, st, o), key="p41none")
    ev = [e for e in E.events if e.kind == "call" and e.name == ".savefig"]
    if ev:
        c.bad("figure: none without registration", at(ev[0]), "saved although no figure is registered")
    else:
        c.ok("figure: none without registration", E.where)
    # refusals

    def one(I, st, o):
        lists(I, st, o)
        figures({"$own": "custom_attr"})(I, st, o)
    O = c.run_method("output_data", pre=one, key="p41one")
    rej = or_(*[and_(*k.st.pc) for k in O.escapes()])
    ats = {x for k in O.escapes() for p in k.st.pc for x in subterms(p)}
    isa = [x for x in ats if x.op == "truth" and x.args[0].op == "app" and x.args[0].args[0] == "isinstance" and c.s("custom_attr") in subterms(x)]
    shp = [x for x in ats if x.op == "eq" and any(y.op == "shape" or (y.op == "app" and y.args[0] == "shape")
                                                or (y.op == "attr" and y.args[1] == "shape") for y in subterms(x))]
    sv = [e for e in O.events if e.kind == "call" and e.name == ".savefig"]
    for lab, test in (("is not an array", isa), ("does not have the shape of the grid", shp)):
        ob = "figure: an attribute that %s is refused" % lab
        if not test:
            c.bad(ob, at(sv[0]) if sv else O.where, "no such test before the figure is drawn") if not _tests(O, isa) else \
                c.unk(ob, O.where, "test not recognised")
            continue
        c.implied(ob, and_(due, not_(test[0])), rej, O.where, why="accepted")
    if shp:
        sides = [y for x in shp for y in x.args]
        tup = [y for y in sides if y.op == "tuple"]
        if len(tup) == 1:
            c.equal("figure: shape demanded", tup[0], mk("tuple", c.s("L"), c.s("W")), O.where)
        else:
            c.unk("figure: shape demanded", O.where, "test not recognised")


def _tests(O, isa):
    """some test of the custom attribute, other than of its type, number of dimensions or size, decides about an exception"""
    for k in O.escapes():
        for p in k.st.pc:
            q = p.args[0] if p.op == "not" else p
            if q in isa or not any(x.op == "sym" and "custom_attr" in str(x.args[0]) for x in subterms(q)):
                continue
            few = ("ndim", "size")
            if any(x.op == "attr" and x.args[1] in few or x.op == "app" and x.args[0] in few for x in subterms(q)) and \
                    not any(x.op == "attr" and x.args[1] not in few for x in subterms(q)):
                continue
            return True
    return False


RULES = {
    "P41": {"fns": [p41], "min": 40, "level": "other",
            "explain": "Abstract interpretation of a save event with every built-in figure and one custom figure registered: each saved figure "
                       "is traced from the data drawn into it to the file it goes to, and its condition, name, title, coordinates and closing "
                       "are decided for all switch values; a second run with an arbitrary attribute decides what is refused."},
}
