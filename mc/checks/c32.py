"""The unit in which money is measured does not matter."""
from mc import families, world

BOUNDS = (
    "pair covering of all configuration axes, the switch product and long worlds (thorough: one-axis deviations and triple covering) x "
    "two units; all states, grid points, choices and records"
)
ASSUMPTIONS = ["amounts: wages, partner earnings, benefits, thresholds, costs, contribution cap and tax brackets; rates have no unit"]
TECHNIQUE = "relational state-space exploration: every model solved and simulated in two units, compared on all states and records"
LEVEL_NOTE = "No reference model: both executions are the real code's. The expected relation (power mu of the factor) is exact up to rounding."


def cases(tier):
    cfgs = world.covering(2) + families.product(families.SWITCHES) + families.LARGE[:2]
    if tier != "quick":
        cfgs += world.deviations(1) + world.covering(3) + families.LARGE[2:]
    # with mu > 0 the tiny floor of consumption (it has no unit) has a weight of its own: keep costs from reaching it
    cfgs = [{**c, "child_care": "zero"} if c.get("mu", -1) > 0 else c for c in cfgs]
    return [{"cfg": c, "factors": [4.0] if i % 3 else [0.37]} for i, c in enumerate(families.dedupe(cfgs))]


def rescaled(cfg, f):
    import numpy as np

    w = world.World(cfg)
    own = w.params_df.index.get_level_values(0) == "const_wage_eq"
    w.params_df.loc[own, "value"] = w.params_df.loc[own, "value"].to_numpy() + np.log(f)
    w.spec["EXOG_PROC"]["partner_cf_const"] += float(np.log(f))
    tt = w.spec["TAXES_TRANSFERS"]
    for k in ("child_benefits", "regelsatz_single", "regelsatz_partner", "regelsatz_child", "elterngeld_min", "elterngeld_max",
              "erziehungsgeld_income_threshold_single", "erziehungsgeld_income_threshold_married", "erziehungsgeld",
              "addition_child_single", "housing_single", "housing_addtion", "ssc_cap"):
        tt[k] = tt[k] * f
    tt["child_care_costs"] = {k: [x * f for x in v] for k, v in tt["child_care_costs"].items()}
    return w.write()


def run_case(case, out):
    import numpy as np
    from mc import impl

    w = world.World({"agents": 300, **case["cfg"]}).write()
    I = impl.Impl(w)
    w.remove()
    mu = w.cfg["mu"]
    ncu, em = I.solve(False)
    df = I.simulate(ncu, em)
    for f in case["factors"]:
        v = rescaled({"agents": 300, **case["cfg"]}, f)
        J = impl.Impl(v)
        v.remove()
        tax = np.asarray(J.spec.tax_params) * np.array([f, f, 1.0, 1 / f])[:, None]
        J.spec = J.spec._replace(tax_params=tax)
        ncu2, em2 = J.solve(False)
        out.close(ncu2, ncu, "tastes depend on the unit of money", names="state,choice")
        out.close(em2, em * f ** mu, "a value depends on the unit of money", names="state,grid,value")
        got, want = J.simulate(ncu2, em2), df
        out.states += len(em) * em.shape[1]
        out.transitions += em.size
        if not out.check(got.shape == want.shape, "the number of records depends on the unit of money"):
            continue
        # a tie between two choices may be broken differently after rounding; everything else must agree
        val = want[[f"Value_Function_{c}" for c in "NPF"]].to_numpy(float)
        top = np.sort(val, axis=1)
        sure = top[:, 2] - top[:, 1] > 1e-9 * (1 + np.abs(top[:, 2]))
        wobbly = set(want["Identifier"].to_numpy()[~sure])
        keep = ~want["Identifier"].isin(wobbly).to_numpy()
        for c in want.columns:
            a, b = got[c].to_numpy(float)[keep], want[c].to_numpy(float)[keep]
            if c in ("Wage_Observed", "Male_Wages"):
                b = b * f
            elif c.startswith(("Flow", "Continuation", "Value")):
                b = b * f ** mu
                # the tiny floor of consumption has no unit; such a choice is never taken
                hopeless = (np.abs(b) > 1e5) & (mu < 0)
                a, b = a[~hopeless], b[~hopeless]
            out.close(a, b, f"{c} depends on the unit of money", names="record")
        out.states += int(keep.sum())
        out.transitions += int(keep.sum()) * want.shape[1]
        out.traces += int(want["Identifier"].nunique())
    out.sample = {"value": float(em[0, 0, 3]), "rescaled": float(em2[0, 0, 3]), "factor": f}
