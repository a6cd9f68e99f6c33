"""P31: inspection tools only read the model."""
import ast

from ..core import *          # noqa
from ..repo import FuncV
from ..interp import Ref

GRIDS = ["eta", "stage", "depth", "qw", "uw", "qs", "sand_frac", "cell_type"]


def attribute(name):
    return lambda I, st, o: I.get_field(st, o, name, None)


def p31(c):
    cls = c.repo.cls("DeltaModel")
    dbg = c.repo.cls("debug_tools")
    names = ["show_attribute", "show_ind", "show_line"]
    if dbg is not None:
        names += [n for n, v in dbg.ns.items() if isinstance(v, FuncV) and not n.startswith("_") and n not in names]
    opt = {k: sym("$" + k, "b") for k in ("grid", "block")}
    runs = []
    for n in names:
        if cls is None or not isinstance(cls.find(n), FuncV):
            c.unk("%s only reads the model" % n, "", "not found")
            continue
        if n == "show_attribute":
            runs += [(n, [C(g)], dict(opt, label=sym("$label", "s")), "'%s'" % g) for g in GRIDS]
            runs += [(n, [sym("name", "s")], {}, "any attribute")]
        elif n == "show_line":
            runs += [(n, [attribute("free_surf_walk_inds")], {"multiline": m, "nozeros": sym("$nz", "b")}, "paths of the model, multiline=%s" % show(m))
                     for m in (TRUE, FALSE)]
            runs += [(n, [sym("ind", "s")], {"nozeros": sym("$nz", "b")}, "any indices")]
        elif n == "show_ind":
            runs += [(n, [attribute("free_surf_walk_inds")], {}, "indices of the model"), (n, [sym("ind", "s")], {}, "any index")]
        else:
            f = cls.find(n)
            runs += [(n, [sym("a%d" % k, "s") for k in range(max(0, len(f.node.args.args) - 1 - len(f.node.args.defaults)))], {}, "any arguments")]
    for k, (n, args, kw, what) in enumerate(runs):
        name = "%s(%s) only reads the model" % (n, what)
        R = c.run_method(n, args=args, kw=kw, key=("dbg", k))
        if R is None:
            c.unk(name, "", "not found")
            continue
        bad = effects(c, R)
        if bad:
            c.bad(name, bad[0], bad[1])
        else:
            c.ok(name, R.where, "%d calls and stores inspected" % len(R.events))


def model_names(c):
    """attributes the rest of the model assigns or reads"""
    out = set()
    for m in c.repo.mods.values():
        if m.name.split(".")[-1] == "debug_tools":
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add(n.value)
    return out


def effects(c, R, known=None):
    """first write to the model or use of the generator, or None"""
    only = known is not None
    known = known if only else model_names(c)
    rec = R.st.heap[R.obj.id]
    mine = {}
    for f, v in rec.fields.items():
        if isinstance(v, Ref) and (not only or f in known):
            mine[v.id] = f
    for e in R.events:
        if e.kind == "rng":
            return at(e), "draws from the random generator"
        if e.kind == "setattr" and e.data and isinstance(e.data[0], Ref) and e.data[0].id == R.obj.id and e.name in known:
            return at(e), "assigns '%s'" % e.name
        if e.kind == "store" and e.data and isinstance(e.data[0], Ref) and e.data[0].id in mine:
            return at(e), "writes into '%s'" % mine[e.data[0].id]
        if only and e.kind == "extstore" and isinstance(e.data[0], T) and any(
                x.op == "sym" and "netcdf" in str(x.args[0]) or x.op in ("ext", "app") and "netCDF4" in str(x.args) for x in subterms(e.data[0])):
            continue
        if e.kind == "extstore" and isinstance(e.data[0], T) and any(
                (x.op == "sym" and str(x.args[0]).startswith("self.")) or (x.op == "app" and x.args[0] == "getattr") for x in subterms(e.data[0])):
            return at(e), "writes into an array of the model"
    for f, v in rec.fields.items():
        if only and f not in known:
            continue
        t = R.field(f)
        s = c.s(f)
        if isinstance(t, T) and t.op in ("store", "lout", "sel", "phi") and s in subterms(t) | R.closure([t]):
            return R.last_store(f), "changes '%s'" % f
    return None


RULES = {
    "P31": {"fns": [p31], "min": 12, "level": "other",
            "explain": "Effect analysis with aliasing: every inspection method is analysed with grids and index arrays of the model itself as "
                       "arguments (and with arbitrary ones); any store that reaches an array of the model through a name, view or "
                       "argument, any assignment of an attribute and any random draw on any path is a violation.",
            "technique": "effect analysis over the value-flow event trace (static)"},
}
