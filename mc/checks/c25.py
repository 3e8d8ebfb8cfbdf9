"""Taste for work: depends on own education, own type and the child's age group only."""
from mc import families, world

BOUNDS = "all discrete states of every configuration in cases(), both expectation modes"
ASSUMPTIONS = ["utility shifters enter as documented: full-time terms also apply to part-time work"]
TECHNIQUE = "exhaustive enumeration of all states, preference shifters compared with the stated rule"
LEVEL_NOTE = "Every state of every configuration is compared; no sampling."


def cases(tier):
    ax = {"types": [1, 2, 3, 4, 12], "child_age_max": [0, 1, 3, 6, 10, 11, 14], "kids_util": ["generic", "zero"],
          "educ_years": [[0, 1, 2], [0, 1], [0]]}
    cfgs = [{**c, "grid": "uniform2", "ndraws": 1, "T": 2} for c in families.product(ax)]
    if tier == "quick":
        cfgs = cfgs[::2]
    cfgs.append({"T": 30, "types": 3, "child_age_max": 12})
    return [{"cfg": c, "biased": i % 2 == 0} for i, c in enumerate(cfgs)]


def run_case(case, out):
    from mc import impl, ref

    w = world.World({**case["cfg"], "child_init_max": 0}).write()
    I = impl.Impl(w)
    w.remove()
    M = ref.Model(w.spec, w.params_df, w.tables)
    s = I.states
    ncu = I.solve(case["biased"])[0]
    for c, want in enumerate(M.pref(s[:, 1], s[:, 3], s[:, 4])):
        if not out.close(ncu[:, c], want, "non-pecuniary utility of " + ("no work", "part-time", "full-time")[c] + " is wrong"):
            out.failures[-1]["detail"]["state"] = s[out.failures[-1]["detail"]["index"][0]].tolist()
    out.states += len(s)
    out.transitions += 3 * len(s)
    out.traces += 1
    out.sample = {"state": s[-1].tolist(), "utilities": ncu[-1].round(5).tolist()}
