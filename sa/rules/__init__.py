from . import state, determ, physics, output, config, jobs, water, debug, storage, figs

RULES = {}
for m in (state, determ, physics, output, config, jobs, water, debug, storage, figs):
    RULES.update(m.RULES)


def _uses(pid, inlet=(), grid=(), pick=False, kept=(), types=(), apart=()):
    """the derived parameters a property's law is stated in are part of the law"""
    def f(c):
        if inlet:
            config.inlet_relations(c, inlet)
        if grid:
            config.grid_relations(c, grid)
        if pick:
            config.pick_rule(c)
        if kept:
            physics.precise(c, kept)
        if types:
            storage.types(c, types)
        if apart:
            storage.apart(c, apart, pid != "P35")
    f.__name__ = "parameters"
    RULES[pid]["fns"] = RULES[pid]["fns"] + [f]


_uses("P18", inlet=("Vp_sed",), kept=("_dx", "eta", "Vp_sed", "Vp_res", "Vp_dep_sand", "Vp_dep_mud"))
_uses("P19", inlet=("u_max", "qs0", "V0"), grid=("U_dep_mud", "U_ero_sand", "U_ero_mud"),
      kept=("_dt", "_dx", "eta", "stage", "depth", "uw", "qs", "qs0", "_lambda", "_beta", "_f_bedload", "_u0", "Vp_sed", "Vp_res",
            "U_dep_mud", "U_ero_mud", "U_ero_sand", "mod_erosion"))
_uses("P20", inlet=("dry_depth",), kept=("eta", "stage", "depth", "pad_depth"))
_uses("P21", inlet=("u_max", "qw0", "dry_depth"), kept=("u_max", "uw", "ux", "uy", "qw", "qx", "qy", "depth", "stage", "eta"))
_uses("P22", inlet=("gamma", "dry_depth"), grid=("theta_sand", "theta_mud"), pick=True,
      kept=("theta_sed", "dry_depth", "distances_flat", "ivec_flat", "jvec_flat", "stage", "pad_stage", "pad_depth", "qx", "qy",
            "mod_sed_weight", "pad_mod_sed_weight"))
_uses("P26", kept=("eta", "Vp_res", "Vp_dep_sand", "Vp_dep_mud"))
_uses("P30", inlet=("_stepmax", "L0"), pick=True)
_uses("P32", inlet=("Qp_water", "omega_flow_iter"))
_uses("P33", inlet=("gamma",))
_uses("P36", inlet=("dry_depth",))
_uses("P20", types=("eta", "stage", "depth"), apart=("eta", "stage", "depth"))
_uses("P21", types=("qx", "qy", "qw", "ux", "uy", "uw"), apart=("qx", "qy", "qw", "ux", "uy", "uw"))
_uses("P26", types=("sand_frac", "active_layer", "eta0", "Vp_dep_sand", "Vp_dep_mud"),
      apart=("sand_frac", "active_layer", "eta0", "Vp_dep_sand", "Vp_dep_mud"))
_uses("P30", types=storage.INDEX)
_uses("P32", types=("qxn", "qyn", "qwn"), apart=("qxn", "qyn", "qwn"))
_uses("P33", types=storage.INDEX + ("sfc_sum", "stage"), apart=("stage", "Hnew", "sfc_visit", "sfc_sum"))
_uses("P35", types=storage.REAL + storage.INDEX, apart=storage.FIELDS)
RULES["P02"]["fns"] = RULES["P02"]["fns"] + [storage.leaks_model]
RULES["P10"]["fns"] = RULES["P10"]["fns"] + [storage.leaks_config]


def _shares(pid, fn, *labels):
    """facts another property is made of that this one rests on as well"""
    def f(c):
        n = len(c.obs)
        fn(c)
        c.obs[n:] = [o for o in c.obs[n:] if any(x in o.name for x in labels)]
    f.__name__ = fn.__name__ + "_shared"
    RULES[pid]["fns"] = RULES[pid]["fns"] + [f]


_shares("P33", water.p30, "every iteration starts with", "parcel is flagged", "parcels are not flagged", "every step is recorded",
        "record of the walks", "the walk records")
_shares("P26", physics.p18, "records its deposition", "recorded at the cell", "deposition of the other class")
