"""Every valid model yields a complete, finite solution and data set."""
from mc import families, world

BOUNDS = (
    "pair covering of all configuration axes and the number of women (thorough: triple covering), one-axis deviations, "
    "long, wide and fine worlds; both belief modes; full output; all values and records"
)
ASSUMPTIONS = ["a model is valid if its tables cover its horizon, levels and years and its shares are probabilities"]
TECHNIQUE = "exhaustive enumeration of a bounded family of configurations through the public entry points, every number judged"
LEVEL_NOTE = (
    "Every combination of two axis values occurs in some configuration; every value of the solution and every entry of the "
    "data set is judged. The set of women and periods is compared with the one implied by the education drawn."
)
COLUMNS = [
    "Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time", "Experience_Stock", "Type",
    "Age_Youngest_Child", "Partner_Indicator", "Choice", "Wage_Observed", "Male_Wages",
] + [f"{n}_{c}" for n in ("Non_Consumption_Utility", "Flow_Utility", "Continuation_Value", "Value_Function") for c in "NPF"]


def cases(tier):
    axes = {**world.AXES, "agents": [1, 2, 7, 500]}
    cfgs = world.covering(2 if tier == "quick" else 3, axes) + world.deviations(1, axes) + families.LARGE
    if tier != "quick":
        cfgs += families.solver_configs("quick")
    cfgs += [{"T": t, "educ_years": y, "agents": n, "types": 1, "grid": "uniform2"}
             for t in (1, 2) for y in ([0, 1, 2], [1, 1, 1], [0]) for n in (1, 3, 40) if min(y) < t]
    return [{"cfg": c, "biased": i % 2 == 0} for i, c in enumerate(families.dedupe(cfgs))]


def run_case(case, out):
    import numpy as np
    from mc import impl

    w = world.World(case["cfg"]).write()
    I = impl.Impl(w)
    s = np.asarray(I.states)
    ncu, em = I.solve(case["biased"])
    grid = len(w.spec["exp_grid"])
    out.check(em.shape == (len(s), grid, 4) and ncu.shape == (len(s), 3), "the solution does not cover every situation", shape=list(em.shape))
    out.check(np.isfinite(em).all(), "a value is not a finite number", count=int((~np.isfinite(em)).sum()))
    out.check((np.isfinite(ncu) & (ncu > 0)).all(), "a taste for work is not a positive number")
    df = impl.simulate(w.params_df, w.spec, biased_exp=case["biased"])
    w.remove()
    out.check(list(df.index.names) == ["Identifier", "Period"], "the data are not indexed by woman and period")
    out.check(not df.index.duplicated().any(), "a woman has two records for a period")
    missing = [c for c in COLUMNS if c not in df.columns]
    if not out.check(not missing, "a column is missing", missing=missing):
        return
    flat = df.reset_index()
    n, T, entry = w.cfg["agents"], w.cfg["T"], np.asarray(w.cfg["educ_years"])
    ids = flat["Identifier"].to_numpy()
    if (entry < T).all():
        out.check(np.array_equal(np.unique(ids), np.arange(n)), "women are missing", women=int(np.unique(ids).size), of=n)
    out.check(((ids >= 0) & (ids < n)).all(), "a woman is not one of those asked for")
    size = flat.groupby("Identifier")["Education_Level"].agg(["size", "first"])
    out.check(np.array_equal(size["size"].to_numpy(), T - entry[size["first"].to_numpy(int)]), "a woman does not have a record for each period after her education")
    ranges = {"Education_Level": (0, len(entry) - 1), "Lagged_Choice": (0, 2), "Type": (0, w.cfg["types"] - 1), "Choice": (0, 2),
              "Age_Youngest_Child": (-1, w.cfg["child_age_max"]), "Partner_Indicator": (0, 1), "Period": (0, T - 1),
              "Experience_Part_Time": (0, w.cfg["init_exp_max"] + T - 1), "Experience_Full_Time": (0, w.cfg["init_exp_max"] + T - 1)}
    for c, (lo, hi) in ranges.items():
        v = flat[c].to_numpy(float)
        bad = ~((v >= lo) & (v <= hi) & (v == np.round(v)))
        out.check(not bad.any(), f"{c} is outside its range", value=None if not bad.any() else float(v[bad][0]))
    work = flat["Choice"].to_numpy() != 0
    for c in COLUMNS:
        v = flat[c].to_numpy(float)
        ok = np.isfinite(v)
        if c == "Wage_Observed":
            ok = (ok & (v > 0)) == work
        if c == "Male_Wages":
            ok &= (v > 0) == (flat["Partner_Indicator"].to_numpy() == 1)
        if c == "Experience_Stock":
            ok &= v >= 0
        if c.startswith("Non_Consumption"):
            ok &= v > 0
        if c.startswith("Flow"):
            ok &= v * w.cfg["mu"] > 0
        out.check(ok.all(), f"{c} is not a proper number", value=None if ok.all() else float(v[~ok][0]), count=int((~ok).sum()))
    out.states += len(flat) + em.shape[0] * em.shape[1]
    out.transitions += flat.size + em.size + ncu.size
    out.traces += int(size.shape[0])
    out.sample = {"situations": len(s), "records": len(flat)}
