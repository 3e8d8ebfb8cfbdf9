"""A prepared simulation function gives, for any parameters, what a fresh simulation gives."""
from mc import families, world

BOUNDS = (
    "seven prepared models (all switches) x every value of every parameter, seed and population size, pair covering on the "
    "first model (thorough: one-axis deviations and triple covering on all) x belief modes x both outputs; each prepared "
    "function is called for all its variants in turn; the argument-by-argument function, filled in once per model and belief mode, likewise; the objects and the files of the preparation changed in place and handed in again; every parameter moved by 1e-8 alone, between calls with the unmoved ones"
)
ASSUMPTIONS = ["the prepared function is called for the same periods, types, education levels and policy it was prepared for"]
TECHNIQUE = "exhaustive enumeration of parameter changes, prepared against fresh execution, row by row"
LEVEL_NOTE = "Every variant in the bound is run both ways on the real code and every entry compared; no sampling."

FREE = {**{k: world.AXES[k] for k in ("sigma", "mu", "delta", "gamma_mom", "gamma_p", "gamma_1", "wage_shift", "kids_util", "taste")},
        "shares": ["equal"], "seed_sim": [5, 90001], "agents": [1, 17, 200]}
BASES = [
    {},
    {"T": 5, "educ_years": [0, 1, 3], "types": 3, "regime": "erziehungsgeld", "grid": "uneven4"},
    {"T": 1, "types": 1, "educ_years": [0, 0, 0], "splitting": False},
    {"T": 4, "types": 4, "integration": "monte_carlo", "elasticity": 1.4, "child_age_max": 7, "init_exp_max": 3},
    {"T": 3, "educ_years": [0], "last_birth": 9, "grid": "uniform2"},
    {"T": 3, "sigma": 0.0, "mu": 0.4, "gamma_p": "one", "delta": 0.0},
    {"T": 12, "types": 2, "educ_years": [0, 2, 4], "grid": "uneven7", "regime": "erziehungsgeld", "splitting": False},
]


def cases(tier):
    out = []
    for i, b in enumerate(BASES):
        for sparse in (False, True):
            if tier != "quick":
                cfgs = world.deviations(1, FREE, b) + world.covering(2 if sparse else 3, FREE, b)
            elif i == 0 and not sparse:
                cfgs = world.covering(2, FREE, b)
            else:
                cfgs = world.covering(1, FREE, b)
            cfgs = families.dedupe(cfgs)
            for j in range(0, len(cfgs), 8):
                out.append({"base": b, "sparse": sparse, "biased": (i + sparse + j // 8) % 2 == 0, "variants": cfgs[j: j + 8]})
        for biased in (False, True):
            few = families.dedupe(world.covering(1, FREE, b))
            out.append({"base": b, "sparse": biased == (i % 2 == 0), "biased": biased, "variants": few[:5], "partial": True})
    for i, b in enumerate(BASES):
        few = families.dedupe(world.covering(1, FREE, b))
        few = few if tier != "quick" else few[:6]
        for files in (False, True):
            for sparse in (False, True) if tier != "quick" else (i % 2 == 0,):
                out.append({"base": b, "sparse": sparse, "biased": (i + files) % 2 == 0, "variants": few, "in_place": True, "files": files})
    rows = list(range(len(world.make_params(world.DEFAULT))))
    step = 4 if tier == "quick" else 1
    for b in BASES[:1] if tier == "quick" else BASES:
        n = len(world.make_params({**world.DEFAULT, **b}))
        for i in range(0, n, 8):
            out.append({"base": b, "sparse": False, "biased": i % 16 == 0, "nudge": [r for r in rows[i: i + 8] if r < n], "step": step})
    return out


def partial(case, out):
    """The argument-by-argument simulation function, filled in once, gives what a fresh simulation gives."""
    import numpy as np
    from mc import impl

    w0 = world.World(case["base"]).write()
    m = impl.Impl(w0)
    f = impl.partial_simulation(m, case["biased"], case["sparse"])
    if f is None:
        w0.remove()
        return
    for v in case["variants"]:
        w = world.World(v)
        for g in ("INITIAL_CONDITIONS", "EXOG_PROC"):
            w.spec[g] = dict(w0.spec[g])
        got = f(model_params_init_file_name=w.params_df, model_spec_init_file_name=w.spec).reset_index()
        want = impl.simulate(w.params_df, w.spec, biased_exp=case["biased"], data_sparse=case["sparse"]).reset_index()
        if out.check(list(got.columns) == list(want.columns) and got.shape == want.shape,
                     "partial and fresh simulation give different tables", variant=v, got=list(got.shape), want=list(want.shape)):
            out.close(got.to_numpy(dtype=float), want.to_numpy(dtype=float), f"partial and fresh simulation differ for {v}",
                      names="row,column")
        out.states += len(want)
        out.transitions += want.size
        out.traces += 2
    w0.remove()
    out.sample = {"variant": case["variants"][-1], "rows": len(want)}


def in_place(case, out):
    """The very objects (or files) of the preparation, changed in place between calls, and handed in again."""
    import copy
    import os

    import yaml
    from mc import impl

    w0 = world.World(case["base"]).write()
    kw = {"biased_exp": case["biased"], "data_sparse": case["sparse"]}
    params, spec = w0.params_df, w0.spec
    p_path, s_path = os.path.join(w0.dir, "params.pkl"), os.path.join(w0.dir, "spec.yml")

    def hand_in():
        if not case["files"]:
            return params, spec
        params.to_pickle(p_path)
        with open(s_path, "w") as f:
            yaml.safe_dump(spec, f)
        return p_path, s_path

    f = impl.get_simulate_func(*hand_in(), **kw)
    f(*hand_in())
    for v in case["variants"]:
        w = world.World(v)
        params["value"] = w.params_df.loc[params.index, "value"].to_numpy()
        spec["SIMULATION"].update(copy.deepcopy(w.spec["SIMULATION"]))
        got = f(*hand_in()).reset_index()
        want = impl.simulate(params.copy(), copy.deepcopy(spec), **kw).reset_index()
        if out.check(list(got.columns) == list(want.columns) and got.shape == want.shape,
                     "after a change in place, prepared and fresh simulation give different tables", variant=v, got=list(got.shape), want=list(want.shape)):
            out.close(got.to_numpy(dtype=float), want.to_numpy(dtype=float),
                      f"after a change in place, prepared and fresh simulation differ for {v}", names="row,column")
        out.states += len(want)
        out.transitions += want.size
        out.traces += 2
    w0.remove()
    out.sample = {"variant": case["variants"][-1], "rows": len(want)}


def nudged(case, out):
    """Prepared once, called with every parameter moved a little, alone, and with none moved in between."""
    import numpy as np
    from mc import impl

    w = world.World(case["base"]).write()
    kw = {"biased_exp": case["biased"]}
    f = impl.get_simulate_func(w.params_df, w.spec, **kw)
    for n, i in enumerate(case["nudge"]):
        if n % case["step"] == 0:
            f(w.params_df, w.spec)
        q = w.params_df.copy()
        q.iloc[i, 0] += 1e-8 * (1 if n % 2 else -1)
        got = f(q, w.spec).reset_index().to_numpy(dtype=float)
        want = impl.simulate(q, w.spec, **kw).reset_index().to_numpy(dtype=float)
        if out.check(got.shape == want.shape, "prepared and fresh simulation give different tables", parameter=list(q.index[i])):
            out.close(got, want, f"prepared and fresh simulation differ when {q.index[i]} is moved by 1e-8", tol=1e-14, names="row,column")
        out.states += len(want)
        out.transitions += want.size
        out.traces += 2
    w.remove()
    out.sample = {"parameters": [list(w.params_df.index[i]) for i in case["nudge"]]}


def run_case(case, out):
    if "nudge" in case:
        return nudged(case, out)
    if case.get("in_place"):
        return in_place(case, out)
    if case.get("partial"):
        return partial(case, out)
    import numpy as np
    from mc import impl

    kw = {"biased_exp": case["biased"], "data_sparse": case["sparse"]}
    w0 = world.World(case["base"]).write()
    f = impl.get_simulate_func(w0.params_df, w0.spec, **kw)
    for v in case["variants"]:
        w = world.World(v)
        for g in ("INITIAL_CONDITIONS", "EXOG_PROC"):
            w.spec[g] = dict(w0.spec[g])
        got = f(w.params_df, w.spec).reset_index()
        want = impl.simulate(w.params_df, w.spec, **kw).reset_index()
        if out.check(list(got.columns) == list(want.columns) and got.shape == want.shape,
                     "prepared and fresh simulation give different tables", variant=v, got=list(got.shape), want=list(want.shape)):
            out.close(got.to_numpy(dtype=float), want.to_numpy(dtype=float), f"prepared and fresh simulation differ for {v}",
                      names="row,column")
        out.states += len(want)
        out.transitions += want.size
        out.traces += 2
    w0.remove()
    out.sample = {"variant": case["variants"][-1], "rows": len(want)}
