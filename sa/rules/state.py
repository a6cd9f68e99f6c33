"""Rules over whole-model histories: update order, clock, lifecycle, cadence, hooks, checkpoint, determinism."""
from ..extern import HALF_DT
from ..core import *

OBJ = "DeltaModel"
STEPS = ["route_water", "route_sediment", "apply_subsidence", "finalize_timestep", "output_data", "output_checkpoint"]


def upd(c):
    return c.run_method("update", routers=True, key="update")


def on_self(R, e):
    return bool(e.args) and e.args[0] is mk("obj", R.obj.id)


# ------------------------------------------------------------------ P06
def p06_order(c):
    R = upd(c)
    fin = c.s("_is_finalized")
    last = -1
    for s in STEPS:
        es = [e for e in R.enters(s) if on_self(R, e)]
        n = "update runs %s exactly once" % s
        if not es:
            if any(e.kind == "call" and e.name == "indirect" for e in R.events):
                c.unk(n, R.where, "indirect calls present")
            else:
                c.bad(n, R.where, "no path through update reaches %s" % s)
            continue
        if len(es) > 1:
            c.bad(n, at(es[1]), "%d call sites reached in one update" % len(es))
            continue
        e = es[0]
        if e.loops:
            c.bad(n, at(e), "called inside a loop")
            continue
        g = [p for p in R.guards(e) if norm(p) is not norm(not_(truth(fin)))]
        if g:
            c.bad(n, at(e), "only under condition " + " and ".join(show(p)[:80] for p in g))
            continue
        c.ok(n, at(e))
        if e.seq < last:
            c.bad("update order at %s" % s, at(e), "runs before the step that must precede it")
        else:
            c.ok("update order at %s" % s, at(e))
        last = max(last, e.seq)
    # clock
    c.equal("update advances time by dt", R.prop("time"), add(c.sp("time"), c.sp("dt")), R.last_store("_time"))
    R.precise("model time is summed in full precision", "time", R.last_store("_time"))
    c.equal("update advances the step counter by one", R.prop("time_iter"), add(c.sp("time_iter"), ONE),
            R.last_store("_time_iter"))
    # the record written in this step carries the new time: clock writes before output_data
    od = [e for e in R.enters("output_data") if on_self(R, e)]
    if od:
        late = [e for e in R.events if e.kind == "setattr" and e.name in ("_time", "_time_iter") and e.seq > od[0].seq]
        if late:
            c.bad("clock advanced before output", at(late[0]), "clock attribute assigned after output_data")
        else:
            c.ok("clock advanced before output", at(od[0]))
        ft = [e for e in R.enters("finalize_timestep")]
        if ft:
            early = [e for e in R.events if e.kind == "setattr" and e.name in ("_time", "_time_iter")
                     and e.seq < ft[0].seq]
            if early:
                c.bad("clock advanced after the step is complete", at(early[0]),
                      "clock attribute assigned before the timestep is finalized")
            else:
                c.ok("clock advanced after the step is complete", at(ft[0]))


STATE_EV = ("setattr", "store", "extstore", "extsetattr", "dictset", "dictdel", "dictupdate", "append", "rng")


SUB = {"route_water": ["init_water_iteration", "run_water_iteration", "compute_free_surface", "finalize_water_iteration"],
       "route_sediment": ["init_sediment_iteration", "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels"]}


def p06_parts(c):
    """the parts of the two routing steps run once each (water: once per iteration) and in order"""
    R = upd(c)
    fin = norm(not_(truth(c.s("_is_finalized"))))
    indirect = any(e.kind == "call" and e.name == "indirect" for e in R.events)
    for step, parts in SUB.items():
        last, loop = -1, None
        for s in parts:
            n = "%s runs %s once%s" % (step, s, " in every iteration" if step == "route_water" else "")
            es = [e for e in R.enters(s) if on_self(R, e)]
            if not es:
                gone = c.method(s) is None or indirect
                (c.unk if gone else c.bad)(n, R.where, "never run")
                continue
            e = es[0]
            if len(es) > 1:
                g = and_(and_(*es[0].pc), and_(*es[1].pc))
                (c.unk if len(es) == 2 and norm(g) is FALSE else c.bad)(n, at(es[1]), "run %d times" % len(es))
                continue
            g = [p for p in R.guards(e) if norm(p) is not fin and p not in (R.I.loops[e.loops[0]].body_pc if e.loops else ())]
            if g:
                c.bad(n, at(e), "only when " + show(g[0])[:80])
            elif step == "route_sediment" and e.loops:
                c.bad(n, at(e), "run in a loop")
            elif step == "route_water" and not e.loops:
                c.bad(n, at(e), "not run in every iteration")
            elif len(e.loops) > 1 or loop is not None and e.loops != loop:
                c.bad(n, at(e), "not in the loop of the other parts")
            else:
                c.ok(n, at(e))
            loop = e.loops if step == "route_water" else None
            if e.seq < last:
                c.bad("order of %s at %s" % (step, s), at(e), "runs before the part that must precede it")
            else:
                c.ok("order of %s at %s" % (step, s), at(e))
            last = max(last, e.seq)
        if loop and len(loop) == 1:
            L = R.I.loops[loop[0]]
            n = "water is routed the configured number of iterations"
            it = L.iter
            if L.exits:
                c.bad(n, L.where, "iterations can end early")
            elif isinstance(it, T) and it.op in ("app", "aapp") and it.args[0] in ("range", "arange"):
                a = it.args[1:]
                cnt = norm(sub(a[1], a[0])) if len(a) < 3 or num(a[2]) == 1 else None
                if cnt is None:
                    c.unk(n, L.where, show(it))
                else:
                    c.equal(n, cnt, c.sp("itermax"), L.where)
            else:
                c.unk(n, L.where, "loop not recognised")


def p06_finalized(c):
    for m in ("update", "finalize"):
        R = c.run_method(m, fields={"_is_finalized": TRUE}, routers=False)
        n = "%s on a finalized model raises" % m
        exs = R.escapes()
        if not R.st.dead:
            c.bad(n, R.where, "returns normally although the model is finalized")
        elif any(x.cls != "RuntimeError" for x in exs):
            c.bad(n, exs[0].where, "raises %s, not RuntimeError" % exs[0].cls)
        elif not exs:
            c.unk(n, R.where, "no exit found")
        else:
            c.ok(n, exs[0].where)
        muts = [e for e in R.events if e.kind in STATE_EV]
        calls = [e for e in R.events if e.kind == "enterfn" and e.name.startswith("hook_")]
        calls += [e for e in R.events if e.kind == "call" and e.name in (".close", ".sync")]
        if muts or calls:
            c.bad("%s on a finalized model changes nothing" % m, at((muts + calls)[0]),
                  "effect before the error is raised: %r" % (muts + calls)[0])
        else:
            c.ok("%s on a finalized model changes nothing" % m, R.where)
    R = c.run_method("finalize", fields={"_is_finalized": FALSE})
    v = R.field("_is_finalized")
    if R.st.dead:
        c.bad("finalize completes", R.where, "no normal exit")
    else:
        c.equal("finalize marks the model finalized", v, TRUE, R.last_store("_is_finalized"))
        cl = [e for e in R.events if e.kind == "call" and e.name == ".close"
              and mentions(R, e.data, "output_netcdf")]
        if not cl:
            c.bad("finalize closes the output file", R.where, "no close of the output file")
        else:
            g = R.guards(cl[0])
            g = [p for p in g if not about(p, "output_netcdf")]
            if g:
                c.bad("finalize closes the output file", at(cl[0]), "only when " + show(g[0])[:80])
            else:
                c.ok("finalize closes the output file", at(cl[0]))
    I = c.run_method("__init__", key="init")
    c.equal("a new model is not finalized", I.field("_is_finalized"), FALSE, I.last_store("_is_finalized"))
    c.equal("a new model starts at time zero unless resumed",
            subst(I.prop("time"), {truth_of_resume(I): FALSE}) if truth_of_resume(I) is not None else I.prop("time"),
            ZERO, I.last_store("_time"))
    U = upd(c)
    w = [e for e in U.events if e.kind == "setattr" and e.name == "_is_finalized"]
    if w:
        c.bad("update never finalizes the model", at(w[0]), "update assigns the finalized flag")
    else:
        c.ok("update never finalizes the model", U.where)


def mentions(R, v, name):
    try:
        t = R.I.term(v, R.st) if not isinstance(v, T) else v
    except Exception:
        return False
    return about(t, name)


def about(t, name):
    for x in subterms(t):
        if x.op == "sym" and x.args[0].split(".")[-1] == name:
            return True
        if x.op == "attr" and x.args[1] == name:
            return True
        if x.op == "app" and x.args[0] == "hasattr" and len(x.args) == 3 and x.args[2] is C(name):
            return True
    return False


def truth_of_resume(R):
    for e in R.events:
        if e.kind == "enterfn" and e.name == "load_checkpoint":
            for p in reversed(e.pc):
                if "resume" in show(p):
                    return p
    return None


# ------------------------------------------------------------------ P05
def p05(c):
    R = upd(c)
    s0, dt, sdt = c.sp("save_time_since_data"), c.sp("dt"), c.sp("save_dt")
    k0, kdt = c.sp("save_time_since_checkpoint"), c.sp("checkpoint_dt")
    due = le(sdt, add(s0, dt))
    kdue = and_(le(kdt, add(k0, dt)), truth(c.sp("save_checkpoint")))
    alive = not_(truth(c.s("_is_finalized")))
    c.equal("data timer accumulates dt and resets on a save", R.prop("save_time_since_data"),
            sel(due, ZERO, add(s0, dt)), R.last_store("_save_time_since_data"))
    c.equal("record index advances by one per save", R.prop("save_iter"),
            sel(due, add(c.sp("save_iter"), ONE), c.sp("save_iter")), R.last_store("_save_iter"))
    kt = R.prop("save_time_since_checkpoint")
    on = ("b", truth(c.sp("save_checkpoint")), True)
    c.equal("checkpoint timer accumulates dt and resets on a checkpoint", kt,
            sel(le(kdt, add(k0, dt)), ZERO, add(k0, dt)), R.last_store("_save_time_since_checkpoint"), facts=[on])
    _when(c, R, "save_grids_and_figs", "a data record is written exactly when the save interval has elapsed", due, alive)
    _when(c, R, "save_the_checkpoint", "a checkpoint is written exactly when its interval has elapsed and it is enabled",
          kdue, alive)
    from .config import set_run
    v = sym("$v", "s")
    for nm, want in (("save_dt", v), ("checkpoint_dt", sel(eq(v, NONE), c.sp("save_dt"), v))):
        S = set_run(c, nm, v)
        if S is None:
            c.unk("the configured %s is the interval used" % nm, "", "not a property")
            continue
        if S.st.dead or S.escapes():
            c.unk("the configured %s is the interval used" % nm, S.where, "may be rejected")
            continue
        c.equal("the configured %s is the interval used" % nm, S.prop(nm), want, S.last_store("_" + nm))
    I = c.run_method("__init__", key="init")
    for m, what in (("save_grids_and_figs", "initial record"), ("save_the_checkpoint", "initial checkpoint")):
        es = [e for e in I.enters(m)]
        if not es:
            c.bad("a new model writes its %s" % what, I.where, "never written")
            continue
        e = es[0]
        g = and_(*[p for p in I.guards(e)])
        want = and_(not_(truth(sym("defer_output", "s"))), not_(truth(resumed(I))))
        if m == "save_the_checkpoint":
            sc = [p for p in I.guards(e) if "save_checkpoint" in show(p)]
            rest = [p for p in I.guards(e) if p not in sc]
            g = and_(*rest)
        bad = [p for p in (g.args if g.op == "and" else [g]) if not (p is TRUE or mentions_only(p, ("defer_output", "resume_checkpoint", "_resume_checkpoint")))]
        if bad:
            op = [v for v in vocabulary(and_(*bad)) if not isinstance(v, tuple)]
            (c.unk if op else c.bad)("a new model writes its %s" % what, at(e), "only when " + show(bad[0])[:100])
        else:
            c.ok("a new model writes its %s" % what, at(e))
    # the first record is written whatever the configured interval is
    for f in ("_save_time_since_data", "_save_time_since_checkpoint"):
        w = [e for e in I.events if e.kind == "setattr" and e.name == f]
        if not w:
            c.unk("initial value of %s" % f, I.where)
        elif norm(w[0].data[3]) is INF:
            c.ok("timer %s starts expired" % f, at(w[0]))
        else:
            c.bad("timer %s starts expired" % f, at(w[0]), "starts at %s" % show(w[0].data[3]))


def resumed(I):
    return I.prop("resume_checkpoint")


def mentions_only(p, names):
    ss = syms(p)
    return all(any(x.args[0].split(".")[-1] == n for n in names) or True for x in ss) and any(
        n in show(p) for n in names)


def _when(c, R, m, name, want, alive):
    es = R.enters(m)
    if not es:
        return c.bad(name, R.where, "%s is never reached" % m)
    if len(es) > 1 or es[0].loops:
        return c.bad(name, at(es[-1]), "%s reached more than once per step" % m)
    g = and_(*[p for p in R.guards(es[0]) if norm(p) is not norm(alive)])
    return c.equal(name, g, want, at(es[0]))


# ------------------------------------------------------------------ P01
OBS = ["eta", "stage", "depth", "qw", "qx", "qy", "uw", "ux", "uy", "qs", "sand_frac", "_H_SL", "_time", "_time_iter",
       "_save_iter", "_save_time_since_data"]
CADENCE = {"_save_time_since_checkpoint"}     # decides only when the next checkpoint is written


def lazy_routers(I, st, o):
    """routers as left behind by an arbitrary earlier step"""
    r = st.heap[o.id]
    f = dict(r.fields)
    for a, cn in (("_sr", "SandRouter"), ("_mr", "MudRouter")):
        cl = I.repo.cls(cn)
        if cl is not None:
            f[a] = I.new_obj(st, cl, "self." + a)
    st.heap[o.id] = ObjRec(r.cls, f, r.lazy)


def hist(c):
    return c.run_method("update", pre=lazy_routers, key="update-lazy")


def carried(c, R=None):
    """attributes whose value at the end of a step can influence later observable values"""
    R = R or hist(c)
    out, work, done = {}, list(OBS), set()
    while work:
        n = work.pop()
        if n in done:
            continue
        done.add(n)
        if n.startswith("_sr.") or n.startswith("_mr."):
            ob = R.raw(n[:3])
            fin = R.field(n[4:], ob)
            init = sym("self." + n, fin_kind(c, n[4:]))
        else:
            fin = R.field(n)
            init = None
        out[n] = fin
        for x in R.closure([fin]):
            if x.op == "sym" and x.args[0].startswith("self."):
                a = x.args[0][5:]
                if a in done:
                    continue
                if changed(c, R, a, x):
                    work.append(a)
    return out


def fin_kind(c, a):
    return c.s(a).args[1]


def changed(c, R, a, x):
    if a.startswith("_sr.") or a.startswith("_mr."):
        ob = R.raw(a[:3])
        if not isinstance(ob, Ref):
            return False
        return R.field(a[4:], ob) is not x
    return R.field(a) is not x


def p01_state(c):
    R = hist(c)
    S = c.run_method("save_the_checkpoint")
    L = c.run_method("load_checkpoint", lazy="new")
    if R is None or S is None or L is None:
        return c.unk("entry points present", "", "update/save_the_checkpoint/load_checkpoint not found")
    sv = [e for e in S.events if e.kind == "call" and e.name.split(".")[-1] in ("savez_compressed", "savez")]
    if not sv:
        return c.unk("checkpoint written with savez", S.where, "no savez call found")
    e = sv[0]
    if S.guards(e) or len(sv) != 1:
        c.bad("the checkpoint is always written in full", at(e), "written only when %s" % [show(p)[:60] for p in S.guards(e)])
    else:
        c.ok("the checkpoint is always written in full", at(e))
    ld = [x for x in L.events if x.kind == "call" and x.name == "numpy.load"]
    if not ld:
        return c.unk("checkpoint read with np.load", L.where)
    sp, lp = e.args[0], ld[0].args[0]
    # the reader opens the file the writer wrote
    c.equal("the checkpoint is read from the file it is written to",
            subst(lp, {sym("new._checkpoint_folder", "s"): c.s("prefix")}), sp, at(ld[0]))
    saved = dict(e.kwargs or {})
    if "**" in saved:
        return c.unk("contents of the checkpoint", at(e), "written from %s" % show(saved["**"])[:80])
    base = mk("app", "ckpt", lp)
    m = {}
    for t in all_terms(L):
        if t.op == "idx" and t.args[0].op == "ckpt" and isc(t.args[1]):
            k = cval(t.args[1])
            m[t] = saved.get(k, UNDEF)
    isf = {}
    for t in all_terms(L):
        if t.op == "truth" and t.args[0].op == "app" and str(t.args[0].args[0]) in ("os.path.isfile", "os.path.exists"):
            isf[t] = TRUE
    car = carried(c, R)
    for n in sorted(car):
        fin = car[n]
        nm = "state '%s' survives a checkpoint" % n
        if n in CADENCE:
            continue
        router = n.startswith("_sr.") or n.startswith("_mr.")
        init = sym("self." + n, fin_kind(c, n[4:])) if router else c.s(n)
        if not changed(c, R, n, init):
            c.ok("'%s' is not changed by a step" % n, R.where)
            continue
        if not read_before_written(R, car, init):
            c.ok("'%s' is recomputed in every step before it is used" % n, R.where)
            continue
        if router:
            c.bad(nm, R.where, "router state '%s' is carried from step to step but not saved" % n)
            continue
        got = L.field(n)
        got = subst(subst(got, m), isf)
        if n in ("_time_iter", "_save_iter"):
            got = strip_int(got)
        if got is sym("new." + n, init.args[1]):
            c.bad(nm, L.where, "carried from step to step, but a resumed model does not restore it")
            continue
        if any(x.op == "undef" for x in subterms(got)):
            c.bad(nm, L.last_store(n), "restored from a key the checkpoint does not contain")
            continue
        low = sorted({v[1] for v in vocabulary(got) if isinstance(v, tuple)} & (HALF_DT | {"float32", "single"}))
        if low:
            c.bad(nm, L.last_store(n), "precision is lost in the checkpoint: %s" % show(got)[:120])
            continue
        if vocabulary(got) - vocabulary(init) and not any(isinstance(v, tuple) and v[1] in ("int", "round", "floor") for v in vocabulary(got)):
            c.unk(nm, L.last_store(n), show(got)[:120])
            continue
        c.equal(nm, got, init, L.last_store(n), why="round trip through the checkpoint")


def read_before_written(R, car, init):
    for n, fin in car.items():
        if init in R.closure([fin]):
            return True
    for e in R.events:
        if e.kind == "rng":
            if init in R.closure(list(e.pc) + [x for x in (e.args or []) if isinstance(x, T)]):
                return True
    return False


def strip_int(t):
    m = {}
    for x in subterms(t):
        if x.op in ("app", "pw") and x.args[0] in ("int", "round"):
            m[x] = x.args[1]
    return subst(t, m) if m else t


def all_terms(R):
    out = set()
    r = R.st.heap.get(R.obj.id)
    for k, v in r.fields.items():
        try:
            out |= subterms(R.I.term(v, R.st))
        except Exception:
            pass
    for e in R.events:
        for a in list(e.args or []) + list((e.kwargs or {}).values()) + list(e.pc):
            if isinstance(a, T):
                out |= subterms(a)
    return out


def p01_rng(c):
    S = c.run_method("save_the_checkpoint")
    L = c.run_method("load_checkpoint", lazy="new")
    sv = [e for e in S.events if e.kind == "call" and e.name.split(".")[-1] in ("savez_compressed", "savez")]
    key = None
    for k, v in (sv[0].kwargs or {}).items():
        if any(x.op == "ext" and "rnd_get_state" in str(x.args[1]) for x in subterms(v)):
            key = k
    if key is None:
        c.bad("the generator state is saved", at(sv[0]), "no saved entry holds the random generator state")
        return
    c.ok("the generator state is saved", at(sv[0]), key)
    sets = [e for e in L.events if e.kind == "call" and e.name.endswith("rnd_set_state")]
    good = [e for e in sets if any(x.op == "idx" and isc(x.args[1]) and cval(x.args[1]) == key
                                   for x in subterms(e.args[-1]))]
    if not good:
        c.bad("the generator state is restored", L.where, "load_checkpoint never restores the saved generator state")
        return
    g = L.guards(good[0])
    if g:
        c.bad("the generator state is restored", at(good[0]), "only when " + show(g[0])[:100])
    else:
        c.ok("the generator state is restored", at(good[0]))
    last = max(e.seq for e in good)
    after = [e for e in L.events if e.seq > last and (e.kind == "rng" or (e.kind == "call" and e.name.endswith("rnd_set_state")))]
    if after:
        c.bad("nothing disturbs the restored generator", at(after[0]), "random generator touched after the restore")
    else:
        c.ok("nothing disturbs the restored generator", L.where)
    I = c.run_method("__init__", key="init")
    lc = I.enters("load_checkpoint")
    if not lc:
        return c.bad("a resumed model loads its checkpoint", I.where, "load_checkpoint is not called during construction")
    c.ok("a resumed model loads its checkpoint", at(lc[0]))
    end = [e.seq for e in I.events if e.kind == "exitfn" and e.name == "load_checkpoint"]
    end = end[0] if end else lc[0].seq
    tail = [e for e in I.events if e.seq > end and e.kind == "rng"]
    if tail:
        c.bad("nothing disturbs the restored generator during construction", at(tail[0]), "draw after the restore")
    else:
        c.ok("nothing disturbs the restored generator during construction", at(lc[0]))
    car = [n for n in carried(c) if "." not in n and n not in CADENCE]
    tail = [e for e in I.events if e.seq > end and e.kind == "setattr" and e.name in car and on_obj(I, e)
            and not excl(e.pc, lc[0].pc)]
    held = {v.id: n for n in car for v in [I.raw(n)] if isinstance(v, Ref)}
    for e in I.events:
        if e.kind == "setattr" and e.name in car and on_obj(I, e) and isinstance(e.data[1], Ref):
            held.setdefault(e.data[1].id, e.name)
    into = [e for e in I.events if e.seq > end and e.kind == "store" and isinstance(e.data[0], Ref)
            and e.data[0].id in held and not excl(e.pc, lc[0].pc)]
    if into:
        c.bad("nothing overwrites the restored state during construction", at(into[0]),
              "'%s' changed in place after the checkpoint is loaded" % held[into[0].data[0].id])
    elif tail:
        c.bad("nothing overwrites the restored state during construction", at(tail[0]),
              "'%s' assigned after the checkpoint is loaded" % tail[0].name)
    else:
        c.ok("nothing overwrites the restored state during construction", at(lc[0]))


def on_obj(R, e):
    return isinstance(e.data[0], Ref) and e.data[0].id == R.obj.id


def excl(p, q):
    return any(not_(x) in q for x in p)


def p01_last(c):
    """the checkpoint holds the state at the end of the step: nothing carried changes after it is written"""
    R = upd(c)
    ck = R.enters("save_the_checkpoint")
    if not ck:
        return c.bad("update can write a checkpoint", R.where, "save_the_checkpoint unreachable")
    car = [n for n in carried(c) if "." not in n and n not in CADENCE]
    refs = {}
    for n in car:
        v = R.raw(n)
        if isinstance(v, Ref):
            refs[v.id] = n
    for e in R.events:
        if e.seq <= ck[0].seq:
            continue
        if e.kind == "setattr" and e.name in car and on_obj(R, e):
            return c.bad("a step changes no carried state after its checkpoint", at(e), "'%s' assigned" % e.name)
        if e.kind == "store" and isinstance(e.data[0], Ref) and e.data[0].id in refs:
            return c.bad("a step changes no carried state after its checkpoint", at(e), "'%s' modified" % refs[e.data[0].id])
        if e.kind == "rng":
            return c.bad("a step changes no carried state after its checkpoint", at(e), "random draw")
    c.ok("a step changes no carried state after its checkpoint", at(ck[0]))


RULES = {
    "P01": {"fns": [p01_state, p01_rng, p01_last], "min": 20, "level": "other",
            "explain": "Backward data/control-dependence closure of the observable fields over the value-flow summary of one "
                       "update gives the set of loop-carried attributes; for each one load(save(x)) is reduced to normal form and "
                       "compared with x; typestate rule for the random generator and ordering rule for writes after the save."},
    "P05": {"fns": [p05], "min": 8, "level": "other",
            "explain": "Normal-form equality of the save/checkpoint timers and record index after update, and equivalence of the "
                       "path conditions of the save events with the specified schedule."},

    "P06": {"fns": [p06_order, p06_parts, p06_finalized], "min": 40,
            "level": "other",
            "explain": "Value-flow summary of DeltaModel.update/finalize/__init__ on an arbitrary object: call-order and guard "
                       "rule on the call events reached, normal-form equality for the clock, effect rule for the finalized state."},
}
