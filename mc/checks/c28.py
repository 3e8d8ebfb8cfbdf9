"""Policy experiments compare the same women: preferences and policy never change nature or entry."""
from mc import families, world

BOUNDS = "every non-demographic axis value alone and in pair covering, against the same base population; three seeds"
ASSUMPTIONS = ["one simulation seed: common random numbers"]
TECHNIQUE = "exhaustive enumeration of policy/preference changes, populations compared row by row"
LEVEL_NOTE = "All births, partner events, entry situations, types and wage shocks of every woman are compared across experiments."

FREE = {k: v for k, v in world.AXES.items()
        if k in ("regime", "splitting", "integration", "ndraws", "sigma", "elasticity", "grid", "mu", "delta", "gamma_mom",
                 "gamma_p", "gamma_1", "wage_shift", "partner_shift", "child_benefits", "child_care", "benefits", "kids_util", "taste")}


def cases(tier):
    base = [{}, {"T": 5, "educ_years": [0, 1, 3], "types": 3, "seed_sim": 7, "init_exp_max": 2},
            {"T": 12, "educ_years": [0, 0, 0], "seed_sim": 90001, "child_age_max": 7}]
    out = []
    for b in base:
        cfgs = world.deviations(1, FREE) + world.covering(2 if tier == "quick" else 3, FREE)
        if b:
            cfgs = world.covering(2 if tier == "quick" else 3, FREE)
        cfgs = families.dedupe(cfgs)[1:]
        step = 8
        for i in range(0, len(cfgs), step):
            out.append({"base": b, "variants": cfgs[i: i + step]})
    return out


NATURE = ["Education_Level", "Type", "Age_Youngest_Child", "Partner_Indicator"]
ENTRY = ["Experience_Part_Time", "Experience_Full_Time"]


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, simx

    def go(cfg, biased=False):
        w = world.World({"agents": 300, **case["base"], **cfg}).write()
        df = impl.simulate(w.params_df, w.spec, biased_exp=biased)
        w.remove()
        M = ref.Model(w.spec, w.params_df, w.tables)
        P = simx.Panel(df, M.T)
        z = simx.residuals(P, M) / M.sigma if M.sigma > 0 else None
        return P, z

    P0, z0 = go({})
    for v in case["variants"]:
        P, z = go(v, biased=bool(len(v) % 2))
        if out.check(np.array_equal(P.ids, P0.ids) and np.array_equal(P.present, P0.present), "the population changes with policy", variant=v):
            for c in NATURE:
                out.close(P[c], P0[c], f"{c} of a woman changes with preferences or policy {v}", names="agent,period")
            for c in ENTRY:
                out.close(P.at_entry(c), P0.at_entry(c), f"initial {c} changes with preferences or policy {v}")
            if z is not None:
                both = ~np.isnan(z) & ~np.isnan(z0)
                out.close(z, z0, f"wage shocks change with preferences or policy {v}", tol=1e-6, mask=both)
                out.count("shocks_compared", int(both.sum()))
        out.states += int(P.present.sum())
        out.transitions += int((P.present[:, 1:] & P.present[:, :-1]).sum())
        out.traces += 1
    out.sample = {"variant": case["variants"][-1], "women": len(P0.ids)}
