"""Determinism, non-interference of output options, hook contract."""
import ast

from ..core import *
from .debug import effects, attribute, GRIDS
from .state import upd, hist, carried, on_self, on_obj, OBS, lazy_routers, excl, about

CLOCKY = ("time.", "datetime.", "uuid.", "secrets.", "os.getpid", "os.urandom", "os.environ", "os.getenv", "socket.",
          "random.", "platform.", "os.cpu_count", "os.times", "threading.", "multiprocessing.", "getpass.", "numpy.empty",
          "tempfile.")
BUILTIN_ND = ("id", "hash", "input")
SIM = ["eta", "stage", "depth", "qw", "qx", "qy", "uw", "ux", "uy", "qs", "sand_frac", "active_layer", "_H_SL", "_time",
       "_time_iter"]


def nondet(x):
    """the outside source a term stands for, if it is one"""
    if x.op in ("ext", "app", "aapp", "pw"):
        nm = str(x.args[1] if x.op == "ext" else x.args[0])
        if nm in BUILTIN_ND:
            return nm
        for p in CLOCKY:
            if nm.startswith(p):
                return nm
        if nm.startswith("numpy.random"):
            return nm
    if x.op == "sym" and x.args[0].startswith("os.environ"):
        return x.args[0]
    return None


def jit_draws(R):
    """external values produced by the compiled generator"""
    out = set()
    for e in R.events:
        if e.kind == "rng" and e.jit:
            out.add(e.name)
    return out


# ------------------------------------------------------------------ P02
def p02(c):
    R = hist(c)
    draws = [e for e in R.events if e.kind == "rng"]
    if not draws:
        c.unk("a step draws from a generator", R.where, "no random draw found in update")
    for e in draws:
        n = "draw at %s uses the seeded generator" % e.where.split("/")[-1]
        if not e.jit:
            c.bad(n, at(e), "%s is called outside compiled code: that generator is not the one the seed initialises" % e.name)
        elif e.name.split(".")[-1] in ("seed", "default_rng", "RandomState", "set_state"):
            c.bad(n, at(e), "a step re-initialises the generator")
        else:
            c.ok(n, at(e))
    # nothing but parameters, state and seeded draws reaches the state
    allj = all(e.jit for e in draws)
    car = carried(c, R)
    for f in SIM:
        t = R.field(f)
        src = None
        for x in R.closure([t]):
            nd = nondet(x)
            if nd and not (nd.startswith("numpy.random") and allj):
                src = nd
        if src:
            c.bad("'%s' after a step depends only on parameters, state and seeded draws" % f, R.last_store(f), "depends on " + src)
        else:
            c.ok("'%s' after a step depends only on parameters, state and seeded draws" % f, R.last_store(f))
    for e in draws:
        ts = list(e.pc) + [x for x in (e.args or []) if isinstance(x, T)]
        src = [nondet(x) for x in R.closure(ts) if nondet(x) and not (nondet(x).startswith("numpy.random") and allj)]
        if src:
            c.bad("draw at %s happens under reproducible conditions" % e.where.split("/")[-1], at(e), "depends on " + src[0])
        else:
            c.ok("draw at %s happens under reproducible conditions" % e.where.split("/")[-1], at(e))
    # construction
    I = c.run_method("__init__", key="init")
    evs = [e for e in I.events if e.kind == "rng"]
    seeds = [e for e in evs if e.name.split(".")[-1] == "seed"]
    lc = I.enters("load_checkpoint")
    good = [e for e in seeds if e.jit]
    if not good:
        (c.bad if not seeds else c.bad)("construction seeds the simulation generator", I.where,
                                        "the compiled generator is never seeded" if not seeds else
                                        "only the interpreter's generator is seeded at " + at(seeds[0]))
    else:
        e = good[-1]
        g = [p for p in I.guards(e)]
        if g:
            c.bad("construction seeds the simulation generator", at(e), "only when " + show(g[0])[:100])
        else:
            c.ok("construction seeds the simulation generator", at(e))
        sv = e.args[0] if e.args else UNDEF
        nones = {p: FALSE for p in subterms(sv) if _isnone(p) and about(p, "_seed")} if isinstance(sv, T) else {}
        src = [nondet(x) for x in I.closure([subst(sv, nones)]) if nondet(x)] if isinstance(sv, T) else []
        if src:
            c.bad("the generator is seeded with the model's seed", at(e), "the value depends on " + src[0])
        else:
            c.equal("the generator is seeded with the model's seed", sv, I.prop("seed"), at(e))
        early = [x for x in evs if x.jit and x.seq < e.seq and x is not e]
        if early:
            c.bad("no draw precedes the seeding", at(early[0]), "compiled draw before the seed is set")
        else:
            c.ok("no draw precedes the seeding", at(e))
        later = [x for x in evs if x.jit and x.seq > e.seq and x.name.split(".")[-1] == "seed"]
        if later:
            c.bad("the generator is seeded once", at(later[0]))
        else:
            c.ok("the generator is seeded once", at(e))
    # the only unseeded draw allowed is the choice of a seed when none was given
    sd = I.prop("seed")
    s0 = sym("self._seed", "s")
    for e in evs:
        if e.jit:
            continue
        n = "unseeded draw at %s only chooses a missing seed" % e.where.split("/")[-1]
        ok = any(norm(p) is norm(mk("eq", *_nn(p))) and about(p, "_seed") and _isnone(p) for p in e.pc)
        if ok:
            c.ok(n, at(e))
        else:
            c.bad(n, at(e), "not guarded by 'seed is None'")
    used = set()
    for f in SIM + ["sigma", "inlet", "cell_type"]:
        t = I.field(f)
        src = None
        for x in I.closure([t]):
            nd = nondet(x)
            if nd and nd != "numpy.random.uniform":
                src = nd
        if src:
            c.bad("initial '%s' depends only on the inputs" % f, I.last_store(f), "depends on " + src)
        else:
            c.ok("initial '%s' depends only on the inputs" % f, I.last_store(f))
    given = [p for p in subterms(sd) if _isnone(p) and about(p, "_seed")]
    if given:
        c.equal("a given seed is used unchanged", subst(sd, {p: FALSE for p in given}), s0, I.last_store("_seed"))
        mt = norm(subst(sd, {p: TRUE for p in given}))
        (c.bad if mt is s0 or mt is NONE else c.ok)("a missing seed is replaced by one that is kept", I.last_store("_seed"), show(mt)[:60])
    elif sd is s0:
        c.ok("a given seed is used unchanged", I.where)
        c.bad("a missing seed is replaced by one that is kept", I.where, "the seed stays None: the run cannot be repeated")
    else:
        c.unk("a given seed is used unchanged", I.where, show(sd)[:100])
    recorded(c, I, sd)
    # compiled code runs sequentially
    for m in c.repo.mods.values():
        for nd in ast.walk(m.tree):
            if isinstance(nd, (ast.Name, ast.Attribute)) and (getattr(nd, "id", None) == "prange" or getattr(nd, "attr", None) == "prange"):
                c.bad("compiled loops run in a fixed order", "%s:%d" % (m.path, nd.lineno), "prange")
            if isinstance(nd, ast.FunctionDef):
                for d in nd.decorator_list:
                    if isinstance(d, ast.Call):
                        for k in d.keywords:
                            if k.arg == "parallel" and not (isinstance(k.value, ast.Constant) and not k.value.value):
                                c.bad("compiled loops run in a fixed order", "%s:%d" % (m.path, nd.lineno),
                                      "%s is compiled with parallel=True" % nd.name)
    c.ok("compiled code scanned for parallel execution", "", "%d modules" % len(c.repo.mods))


def recorded(c, I, sd):
    """the seed in use is written to the log of the run, at any verbosity"""
    ob = "the seed in use is recorded in the log"
    logs = [e for e in I.events if e.kind == "call" and e.name in (".info", ".warning", ".debug") and
            any(isinstance(a, T) and sd in subterms(a) for a in (e.args or []))]
    if not logs:
        al = [e for e in I.events if e.kind == "call" and e.name in (".info", ".warning", ".debug")]
        plain = al and not any(x.op == "unk" for e in al for a in (e.args or []) if isinstance(a, T) for x in subterms(a))
        (c.bad if plain else c.unk)(ob, I.where, "no log entry holds the seed")
        return
    for e in logs:
        g = []
        for p in I.guards(e):
            vb = {x: C(0) for x in subterms(p) if x.op == "idx" and x.args[1] is C("verbose") or x.op == "sym" and str(x.args[0]).split(".")[-1].strip("_") == "verbose"}
            g.append(norm(subst(p, vb)))
        if all(p is TRUE for p in g):
            c.ok(ob, at(e))
            return
    if all(any(p is FALSE for p in [norm(q) for q in g]) for e in logs):
        c.bad(ob, at(logs[0]), "not with default verbosity")
    else:
        c.unk(ob, at(logs[0]), show(I.guards(logs[0])[0])[:80])


def _isnone(p):
    return p.op == "eq" and any(a is NONE for a in p.args)


def _nn(p):
    return p.args if p.op == "eq" else (p, TRUE)


# ------------------------------------------------------------------ P03
OPTS = ("_verbose", "_save_any_grids", "_save_dt", "_checkpoint_dt", "_save_checkpoint", "_save_eta_figs", "_save_stage_figs",
        "_save_depth_figs", "_save_discharge_figs", "_save_velocity_figs", "_save_sedflux_figs", "_save_sandfrac_figs",
        "_save_figs_sequential", "_save_metadata", "_save_eta_grids", "_save_stage_grids", "_save_depth_grids",
        "_save_discharge_grids", "_save_velocity_grids", "_save_sedflux_grids", "_save_sandfrac_grids",
        "_save_discharge_components", "_save_velocity_components", "_clobber_netcdf", "_legacy_netcdf",
        "_save_var_list", "_save_fig_list", "_netcdf_coords", "prefix", "prefix_abspath", "_out_dir", "output_netcdf",
        "logger", "_save_iter", "_save_time_since_data", "_save_time_since_checkpoint", "_hook_log")


def read_by(c, R):
    """attributes whose value a step uses in computing the simulated fields"""
    work, done = list(SIM), set()
    while work:
        n = work.pop()
        if n in done:
            continue
        done.add(n)
        if "." in n:
            continue
        for x in R.closure([R.field(n)]):
            if x.op == "sym" and x.args[0].startswith("self.") and "." not in x.args[0][5:]:
                a = x.args[0][5:]
                if a not in done and a not in OPTS:
                    work.append(a)
    return done


def p03(c):
    R = hist(c)
    used = read_by(c, R)
    opts = {}
    for o in OPTS:
        for k in ("s", "a", "m"):
            opts[sym("self." + o, k)] = o
    for f in SIM + sorted(used - set(SIM)):
        t = R.field(f)
        hit = [opts[x] for x in R.closure([t]) if x in opts]
        n = "'%s' after a step is independent of the output options" % f
        if hit:
            c.bad(n, R.last_store(f), "depends on option '%s'" % hit[0])
        else:
            c.ok(n, R.last_store(f))
    for e in R.events:
        if e.kind != "rng":
            continue
        ts = list(e.pc) + [x for x in (e.args or []) if isinstance(x, T)]
        for l in e.loops:
            L = R.I.loops.get(l)
            if L is not None:
                ts += [x for x in (L.cond, L.iter) if isinstance(x, T)]
        hit = [opts[x] for x in R.closure(ts) if x in opts]
        n = "random draw at %s in %s is independent of the output options" % (e.where.split("/")[-1], e.stack[-3].name if len(e.stack) > 3 and hasattr(e.stack[-3], "name") else "")
        if hit:
            c.bad(n, at(e), "happens depending on option '%s'" % hit[0])
        else:
            c.ok(n, at(e))
    # what a user attached to a step runs whatever the output options are
    for e in R.events:
        if e.kind == "enterfn" and e.name.startswith("hook_") and on_self(R, e):
            ts = list(e.pc)
            for l in e.loops:
                L = R.I.loops.get(l)
                if L is not None:
                    ts += [x for x in (L.cond, L.iter) if isinstance(x, T)]
            hit = [opts[x] for x in R.closure(ts) if x in opts]
            n = "%s runs independently of the output options" % e.name
            if hit:
                c.bad(n, at(e), "runs depending on option '%s'" % hit[0])
            else:
                c.ok(n, at(e))
    # saving and logging write no simulation state
    refs = {}
    for f in used:
        v = R.raw(f)
        if isinstance(v, Ref):
            refs[v.id] = f
    for m in ("output_data", "output_checkpoint", "log_model_time"):
        es = [e for e in R.enters(m) if on_self(R, e)]
        ex = [e for e in R.events if e.kind == "exitfn" and e.name == m]
        if not es or not ex:
            if c.method(m) is None:
                c.unk("%s writes no simulation state" % m, R.where, "not found")
            continue
        a, b = es[0].seq, ex[-1].seq
        bad = None
        for e in R.events:
            if a < e.seq < b:
                if e.kind == "setattr" and e.name in used and on_obj(R, e):
                    bad = e
                if e.kind == "store" and isinstance(e.data[0], Ref) and e.data[0].id in refs:
                    bad = e
                if e.kind == "rng":
                    bad = e
        if bad:
            c.bad("%s writes no simulation state" % m, at(bad), repr(bad)[:120])
        else:
            c.ok("%s writes no simulation state" % m, at(es[0]))
    # the saving steps one by one, with grids of the model as their subject
    for k, (m, args, what) in enumerate(saving(c)):
        n = "%s(%s) writes no simulation state" % (m, what)
        S = c.run_method(m, args=args, key=("p03", k))
        if S is None:
            continue
        bad = effects(c, S, used)
        if bad:
            c.bad(n, bad[0], bad[1])
        else:
            c.ok(n, S.where)
    # construction without resuming
    I = c.run_method("__init__", key="init")
    res = truth(I.prop("resume_checkpoint"))
    for f in SIM + ["sigma", "inlet", "cell_type", "Qp_water", "_dt"]:
        t = subst(I.field(f), {res: FALSE, I.prop("resume_checkpoint"): FALSE})
        cl = I.closure([t])
        hit = [opts[x] for x in cl if x in opts]
        n = "initial '%s' is independent of the output options" % f
        if hit:
            c.bad(n, I.last_store(f), "depends on option '%s'" % hit[0])
        else:
            c.ok(n, I.last_store(f))


def saving(c):
    fig = sym("fig", "s")
    out = [("make_figure", [C(g), sym("time", "s")], "'%s'" % g) for g in GRIDS]
    out += [("make_figure", [sym("var", "s"), sym("time", "s")], "any variable")]
    out += [("save_grids", [C(g), attribute(g), sym("idx", "s")], "'%s'" % g) for g in GRIDS]
    out += [("save_figure", [fig, sym("directory", "s"), sym("root", "s"), sym("k", "s")], "any figure")]
    out += [("save_grids_and_figs", [], ""), ("save_the_checkpoint", [], ""), ("log_model_time", [], ""),
            ("log_info", [sym("msg", "s"), sym("v", "s")], "any message")]
    return out


# ------------------------------------------------------------------ P07
EXEMPT = {"run_one_timestep", "sed_route"}      # deprecated names, rejected at construction


def hooks(c):
    c1 = c.repo.cls("DeltaModel")
    out = {}
    for k in c1.mro():
        for n, v in (k.ns.items() if hasattr(k, "ns") else ()):
            if n.startswith("hook_") and isinstance(v, FuncV):
                out.setdefault(n, v)
    return out


def job_model(cls, resume=None):
    def pre(I, st, o):
        m = I.new_obj(st, I.repo.cls("DeltaModel"), "self.deltamodel")
        if resume is not None:
            r = st.heap[m.id]
            st.heap[m.id] = ObjRec(r.cls, dict(r.fields, _resume_checkpoint=resume), r.lazy)
        r = st.heap[o.id]
        st.heap[o.id] = ObjRec(r.cls, dict(r.fields, deltamodel=m), r.lazy)
    return pre


MUT = ("setattr", "store", "extstore", "extsetattr", "dictset", "dictdel", "dictupdate", "rng", "raise")


def p07(c):
    hk = hooks(c)
    if len(hk) < 5:
        return c.unk("hook table", "", "no hooks found")
    for n, fv in sorted(hk.items()):
        R = c.run_method(n, args=[sym("arg%d" % i, "s") for i in range(max(0, len(fv.node.args.args) - 1))], key=("hook", n))
        ev = [e for e in R.events if e.kind not in ("enterfn", "exitfn")]
        if ev or R.st.dead or (R.value is not None and R.term(R.value) is not NONE):
            c.bad("default %s does nothing" % n, R.where, repr(ev[0])[:100] if ev else "returns a value or raises")
        else:
            c.ok("default %s does nothing" % n, R.where)
    D = c.run_method("__init__", key="init")
    for h in ("hook_sed_route", "hook_run_one_timestep"):
        ob = "a subclass that still defines %s is refused" % h
        has = [x for x in {y for k in D.escapes() for p in k.st.pc for y in subterms(p)}
               if x.op == "app" and x.args[0] == "hasattr" and len(x.args) == 3 and x.args[2] is C(h)]
        rej = or_(*[and_(*k.st.pc) for k in D.escapes() if k.cls == "AttributeError"])
        if has:
            c.implied(ob, truth(has[0]), rej, D.where, why="accepted")
        elif any(x.op == "c" and x.args[0] == h for k in D.escapes() for p in k.st.pc for x in subterms(p)):
            c.unk(ob, D.where, "test not understood")
        else:
            c.bad(ob, D.where, "construction does not look for it")
    roots = [("construction", c.run_method("__init__", key="init")), ("update", upd(c))]
    for cn in ("_ParallelJob", "_SerialJob"):
        if c.repo.cls(cn) is not None:
            roots.append((cn + ".run", c.run_method("run", cls=cn, pre=job_model(cn), key=("job", cn))))
    called = set()
    for rn, R in roots:
        if R is None:
            c.unk("root " + rn, "", "not found")
            continue
        seq = [e for e in R.events if e.kind in ("enterfn", "exitfn") or e.kind in MUT]
        objs = {}
        for e in seq:
            if e.kind == "enterfn" and e.name.startswith("hook_"):
                called.add(e.name)
                if e.name in hk and not rn.endswith(".run"):
                    sw = swallowed(e)
                    ob = "%s: an error raised by %s is not hidden" % (rn, e.name)
                    if sw and not any(o.name == ob and o.verdict == VIOLATED for o in c.obs):
                        c.bad(ob, at(e), "caught and dropped in %s" % sw[0])
                    elif not sw:
                        c.ok(ob, at(e))
        used = set()
        for i, e in enumerate(seq):
            if e.kind != "enterfn" or "hook_" + e.name not in hk or e.name in EXEMPT:
                continue
            h = "hook_" + e.name
            n = "%s: %s runs immediately before %s" % (rn, h, e.name)
            j = i - 1
            found = None
            clean = True
            while j >= 0:
                x = seq[j]
                if x.kind == "enterfn" and x.name == h and same_obj(x, e):
                    found = x
                    break
                if x.kind == "enterfn" and x.name == e.name and same_obj(x, e):
                    break
                if x.kind in MUT and x.kind != "raise" and not (x.kind == "setattr" and x.name == "_hook_log"):
                    clean = False
                j -= 1
            if found is None:
                c.bad(n, at(e), "the step runs without its hook")
                continue
            used.add(id(found))
            if not clean:
                c.bad(n, at(e), "state changes between the hook and the step it precedes")
            elif found.loops != e.loops:
                c.bad(n, at(found), "hook and step are not in the same loop")
            elif set(found.pc) != set(e.pc) and not _same(found.pc, e.pc):
                c.bad(n, at(found), "hook and step do not run under the same condition: %s / %s" % (
                    [show(p)[:60] for p in found.pc if p not in e.pc], [show(p)[:60] for p in e.pc if p not in found.pc]))
            elif list(found.args[1:]) and list(found.args[1:]) != list(e.args[1:1 + len(found.args) - 1]):
                c.bad(n, at(found), "hook receives other arguments than the step")
            else:
                c.ok(n, at(found))
        for i, e in enumerate(seq):
            if e.kind != "enterfn" or not e.name.startswith("hook_") or e.name.startswith("hook_after_"):
                continue
            if e.name[5:] in EXEMPT or e.name not in hk:
                continue
            if id(e) not in used:
                c.bad("%s: %s belongs to one run of its step" % (rn, e.name), at(e), "hook called without its step")
        # hooks after a step
        for h in sorted(hk):
            if not h.startswith("hook_after_"):
                continue
            step = h[len("hook_after_"):]
            ent = [e for e in seq if e.kind == "enterfn" and e.name == step]
            hs = [e for e in seq if e.kind == "enterfn" and e.name == h]
            if not ent and not hs:
                continue
            n = "%s: %s runs immediately after %s" % (rn, h, step)
            if len(hs) != len(ent):
                c.bad(n, at((hs or ent)[0]), "%d runs of the step, %d of its hook" % (len(ent), len(hs)))
                continue
            okk = True
            for a, b in zip(ent, hs):
                ex = [i for i, x in enumerate(seq) if x.kind == "exitfn" and x.name == step and x.seq > a.seq]
                bi = seq.index(b)
                if not ex or ex[0] > bi:
                    c.bad(n, at(b), "hook runs before the step has finished")
                    okk = False
                elif any(x.kind in MUT or x.kind == "enterfn" and _effect(R, x) for x in seq[ex[0] + 1:bi]):
                    c.bad(n, at(b), "other work happens between the step and its hook")
                    okk = False
                elif b.loops != a.loops or not _same(R.guards(a), R.guards(b)):
                    c.bad(n, at(b), "hook and step do not run under the same condition")
                    okk = False
            if okk:
                c.ok(n, at(hs[0]))
    for h in sorted(hk):
        if h in called:
            c.ok("%s is called by the model" % h, hk[h].qual)
        else:
            c.bad("%s is called by the model" % h, hk[h].qual, "no path from construction or update reaches the hook")


def _effect(R, x):
    return False


def same_obj(a, b):
    return bool(a.args) and bool(b.args) and a.args[0] is b.args[0]


def _same(p, q):
    p = {norm(x) for x in p}
    q = {norm(x) for x in q}
    if p == q:
        return True
    try:
        return decide_equal(and_(*p), and_(*q)) is None
    except (Undecided, RecursionError):
        return True


RULES = {
    "P02": {"fns": [p02], "min": 40, "level": "other",
            "explain": "Effect analysis of every random draw reachable from construction and update (compiled generator or "
                       "interpreter generator, guards, seeding order) and taint analysis: the dependence closure of every simulation "
                       "field contains no clock, process, environment, or unseeded source."},
    "P03": {"fns": [p03], "min": 40, "level": "other",
            "explain": "Information-flow (non-interference) analysis: the data/control dependence closure of every simulation field "
                       "and of the conditions of every random draw excludes every output option; effect rule for the saving and "
                       "logging routines."},
    "P07": {"fns": [p07], "min": 70, "level": "other",
            "explain": "Call-sequence (typestate) rule over the event trace of construction, update and the job runners: every "
                       "run of a hooked step is immediately preceded (followed) by its hook on the same object, under the same path "
                       "condition and loop, with the same arguments; default hooks have no effects."},
}
