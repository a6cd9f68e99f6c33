"""How the model's fields are stored: element types, and which fields share one array.  Array hooks (P40)."""
from ..core import *          # noqa
from ..terms import *         # noqa
from ..interp import Ref
from ..extern import INT_DT, HALF_DT
from .state import upd
from . import water, physics

NARROW = {"int8", "int16", "uint8", "uint16", "i1", "i2", "u1", "u2", "byte", "short"} | HALF_DT
REAL = ("eta", "eta0", "stage", "depth", "qx", "qy", "qw", "qxn", "qyn", "qwn", "ux", "uy", "uw", "qs", "sand_frac", "active_layer",
        "Vp_dep_sand", "Vp_dep_mud", "sfc_sum", "mod_water_weight", "mod_sed_weight", "mod_erosion")
INDEX = ("free_surf_walk_inds",)
FIELDS = REAL + INDEX + ("cell_type", "sfc_visit", "free_surf_flag", "Hnew", "sigma", "cf")


def types(c, names):
    """the element type of a field holds the values that are put into it"""
    R = c.run_method("create_domain", key="create_domain")
    if R is None:
        return
    for n in names:
        v = R.raw(n)
        if not isinstance(v, Ref) or v.kind != "arr":
            continue
        d = R.I.dtypes.get(v.id)
        lossy = d is not None and (d in NARROW if n in INDEX else d in INT_DT or d in HALF_DT)
        ob = "%s is stored without loss" % n
        if lossy:
            c.bad(ob, R.last_store(n), "stored as %s: %s" % (d, "cell indices of large grids do not fit" if n in INDEX else "values are cut off"))
        else:
            c.ok(ob, R.last_store(n), d or "")


def shared(R, obj=None):
    """[(name, other name, event)] of model fields left bound to one and the same array"""
    o = obj or R.obj
    sets = [e for e in R.events if e.kind == "setattr" and isinstance(e.data[0], Ref) and e.data[0].id == o.id]
    out = []
    for e in R.events:
        if e.kind != "alias" or e.data[0].id != o.id or e.name not in FIELDS:
            continue
        for n in e.data[1]:
            again = [x for x in sets if x.name in (e.name, n) and x.seq > e.seq and not set(x.pc) - set(e.pc)]
            if n in FIELDS and not again:
                out.append((e.name, n, e))
    return out


def apart(c, names, step=True):
    """no two fields are one array: writing into one would change the other"""
    for label, R in (("construction", c.run_method("__init__", key="init")), ("a step", upd(c) if step else None)):
        if R is None:
            continue
        hit = {}
        for a, b, e in shared(R):
            if a in names or b in names:
                hit.setdefault(a, (b, e))
        for a, (b, e) in sorted(hit.items()):
            c.bad("after %s '%s' has its own storage" % (label, a), at(e), "the same array as '%s'" % b)
        if not hit:
            c.ok("after %s the fields %s have their own storage" % (label, ", ".join(names)), R.where)


def no_leaks(c, what, runs):
    """nothing a model sets up outlives it: no writes into containers of modules, classes or default arguments"""
    for label, R in runs:
        if R is None:
            continue
        es = R.leaks()
        ob = "%s: %s is kept in this model only" % (label, what)
        seen = set()
        for e in es:
            if e.where not in seen and len(seen) < 3:
                seen.add(e.where)
                c.bad(ob, at(e), "written to storage all models of the process share (%s)" % (e.name if e.kind in ("dictset", "globalset") else e.kind))
        if not es:
            c.ok(ob, R.where)


def leaks_model(c):
    no_leaks(c, "model state", (("construction", c.run_method("__init__", key="init")), ("reading the input", c.run_method("import_files")),
                               ("a step", upd(c))))
    aliased(c)


def aliased(c):
    """a local name bound to a container of the module or class and then written through"""
    import ast
    from ..interp import MUTATORS
    n = 0
    for m in c.repo.mods.values():
        tops = {}
        for scope in [m.tree] + [k for k in m.tree.body if isinstance(k, ast.ClassDef)]:
            for s in scope.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and (
                        isinstance(s.value, (ast.Dict, ast.List, ast.Set)) or isinstance(s.value, ast.Call) and
                        isinstance(s.value.func, ast.Name) and s.value.func.id in ("dict", "list", "set", "OrderedDict", "defaultdict")):
                    tops[s.targets[0].id] = scope is m.tree
        if not tops:
            continue
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            n += 1
            own = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                {a.arg for a in f.args.args}
            for b in ast.walk(f):
                for body in (getattr(b, "body", None), getattr(b, "orelse", None)):
                    if not isinstance(body, list):
                        continue
                    for k, s in enumerate(body):
                        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                            continue
                        v, x = s.value, s.targets[0].id
                        if not (isinstance(v, ast.Name) and tops.get(v.id) and v.id not in own or
                                isinstance(v, ast.Attribute) and v.attr in tops and not tops[v.attr]):
                            continue
                        if any(isinstance(q, ast.Name) and q.id == x and isinstance(q.ctx, ast.Store) for z in body[k + 1:] for q in ast.walk(z)):
                            continue
                        for q in ast.walk(f):
                            w = isinstance(q, ast.Subscript) and isinstance(q.ctx, (ast.Store, ast.Del)) and isinstance(q.value, ast.Name) and q.value.id == x or \
                                isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in MUTATORS and \
                                isinstance(q.func.value, ast.Name) and q.func.value.id == x
                            if w and q.lineno > s.lineno:
                                c.bad("no function writes through a name for shared storage", "%s:%d (%s.%s)" % (m.path, q.lineno, m.name, f.name),
                                      "%s is the container all calls share (bound at line %d)" % (x, s.lineno))
                                return
    c.ok("no function writes through a name for shared storage", "", "%d functions" % n)


def leaks_config(c):
    no_leaks(c, "configuration", (("construction", c.run_method("__init__", key="init")), ("reading the input", c.run_method("import_files"))))
    aliased(c)


# ------------------------------------------------------------------ P40
MODS = ("mod_water_weight", "mod_sed_weight", "mod_erosion")


def p40(c):
    R = c.run_method("create_domain", key="create_domain")
    if R is None:
        return c.unk("array hooks", "", "create_domain not found")
    i, j = sym("$i", "s"), sym("$j", "s")
    for n in MODS:
        c.equal("%s starts neutral" % n, water.cell(R.field(n), (i, j)), ONE, R.last_store(n))
    types(c, MODS)
    # nothing but construction writes them
    for m in ("update", "finalize", "create_boundary_conditions", "init_sediment_routers", "init_subsidence", "load_checkpoint",
              "process_input_to_model", "init_output_file"):
        X = upd(c) if m == "update" else c.run_method(m)
        if X is None:
            continue
        for n in MODS:
            es = [e for e in X.events if e.kind == "setattr" and e.name == n and isinstance(e.data[0], Ref) and e.data[0].id == X.obj.id]
            v = X.raw(n)
            es += [e for e in X.events if e.kind == "store" and e.data and isinstance(e.data[0], Ref) and isinstance(v, Ref) and e.data[0].id == v.id]
            ob = "%s leaves %s as the user set it" % (m, n)
            if es:
                c.bad(ob, at(es[0]), "written by the model")
            else:
                c.ok(ob, X.where)
    # erosion: the routers work with the model's own array
    S = c.run_method("init_sediment_routers")
    if S is None:
        c.unk("the routers use the model's own mod_erosion", "", "init_sediment_routers not found")
    else:
        own = S.raw("mod_erosion")
        for r, what in (("_sr", "sand"), ("_mr", "mud")):
            ob = "changes to mod_erosion reach the %s router" % what
            o = S.raw(r)
            if not isinstance(o, Ref) or o.kind != "obj":
                c.unk(ob, S.where, "router not found")
                continue
            v = S.raw("mod_erosion", o)
            U = upd(c)
            runs = [e for e in U.events if e.kind == "setattr" and e.name == "mod_erosion"]
            if isinstance(v, Ref) and isinstance(own, Ref) and v.id == own.id:
                c.ok(ob, S.last_store(r))
            elif runs:
                c.unk(ob, at(runs[0]), "the router is given the array elsewhere")
            elif isinstance(v, Ref) and v.kind == "arr":
                c.bad(ob, S.last_store(r), "the router keeps a copy made when it was built: %s" % show(S.term(v))[:60])
            else:
                c.unk(ob, S.last_store(r), "not recognised")
    # order of construction: the hook after domain creation can set them before the routers are built
    I = c.run_method("__init__", key="init")
    d, r = I.enters("create_domain"), I.enters("init_sediment_routers")
    if d and r:
        (c.ok if d[0].seq < r[0].seq else c.bad)("the routers are built from the domain's arrays", at(r[0]), "built before the domain")
    water._p22_water(c)
    water._p22_sed(c)
    physics.p19(c)


RULES = {
    "P40": {"fns": [p40], "min": 30, "level": "other",
            "explain": "Effect rule (no step writes the array hooks), identity rule (routers hold the model's own array), and equality of "
                       "routing weights and erosion with the documented formulas in which the hooks occur."},
}
