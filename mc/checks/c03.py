"""Household covariates: child age group, partner earnings, equivalence scale, child benefit."""
import itertools

BOUNDS = "every state of every size in cases(); partner equation x child benefit variants"
ASSUMPTIONS = ["child age groups: none, 0-2, 3-5, 6-10, older"]
TECHNIQUE = "exhaustive enumeration of all states against independently stated household rules"
LEVEL_NOTE = "Every state of every size within the bound is compared; no sampling."


def cases(tier):
    A = list(range(0, 19))
    cfgs = [{"A": A, "cfg": {"T": t, "educ_years": [0, 1, 2][:e], "child_benefits": cb, "partner_shift": ps}}
            for t, e, cb, ps in itertools.product(
                [1, 3] if tier == "quick" else [1, 2, 3, 7], (1, 2, 3), (43.0, 0.0, 17.5), (0.0, -1.5, 1.5))]
    cfgs.append({"A": [1], "cfg": {"T": 150, "types": 1, "partner_shift": -1.0}})
    cfgs.append({"A": [30, 150], "cfg": {"T": 2, "types": 1}})
    cfgs.append({"A": [0, 2, 5, 10, 11, 18], "cfg": {"T": 60, "types": 1, "partner_shift": -1.0}})
    return cfgs


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, world

    for A in case["A"]:
        w = world.World({**case["cfg"], "child_age_max": A}).write()
        spec = impl.read_model_spec_init(w.spec, w.params_df)
        M = ref.Model(w.spec, w.params_df, w.tables)
        w.remove()
        objs = impl.create_state_space_objects(spec)
        s, cov = np.asarray(objs[0]), np.asarray(objs[2], dtype=float)
        t, e, l, k, a, p = s.T
        for col, name, want in [
            (0, "child age group", M.child_bin(a)),
            (1, "partner's weekly earnings", M.male_wage(t, e, p)),
            (2, "equivalence scale", M.equiv(a, p)),
            (3, "child benefit", M.child_benefit(a)),
        ]:
            ok = out.close(cov[:, col], want, f"{name} is wrong")
            if not ok:
                i = out.failures[-1]["detail"]["index"][0]
                out.failures[-1]["detail"]["state"] = s[i].tolist()
                out.failures[-1]["detail"]["child_age_max"] = A
        out.states += len(s)
        out.transitions += 4 * len(s)
    out.traces += len(case["A"])
    out.sample = {"state": s[-1].tolist(), "covariates": cov[-1].round(4).tolist()}
