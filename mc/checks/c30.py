"""Equivalent descriptions of the same model give the same results."""
import itertools

from mc import families, world

BOUNDS = (
    "permanent wage scale against wage constants; every relabelling of up to four types, duplicate and fewer types; equal and fewer "
    "education levels; age limits nobody reaches: all worlds of cases(), all states, all simulated rows"
)
ASSUMPTIONS = ["floating point comparison at 1e-9 relative"]
TECHNIQUE = "exhaustive enumeration of equivalent model pairs, every state's value and every simulated row compared"
LEVEL_NOTE = "Metamorphic equalities checked on every state and simulated row for every pair in the bound; needs no reference values."


def cases(tier):
    ax = {"regime": ["erziehungsgeld"], "splitting": [False], "integration": ["monte_carlo"], "grid": ["uneven4"], "T": [1, 5],
          "educ_years": [[0, 0, 0], [0, 1, 3]], "types": [1, 4], "child_age_max": [1, 7], "gamma_mom": [1.1], "mu": [0.4],
          "benefits": ["small", "wide"], "partner_shift": [-1.5], "sigma": [0.0]}
    cfgs = world.covering(1 if tier == "quick" else 2, ax) + [{}]
    if tier == "quick":
        cfgs += world.covering(2, {k: ax[k] for k in ("regime", "splitting", "integration", "grid")})
    cfgs = families.dedupe(cfgs)
    out = []
    for i, c in enumerate(cfgs):
        for what in ("scale", "types", "education", "weeks"):
            if tier == "quick" and what == "weeks" and i % 2:
                continue
            out.append({"what": what, "cfg": c, "biased": (i + len(what)) % 2 == 0})
    return out


def run_case(case, out):
    {"scale": scale, "types": types, "education": education, "weeks": last_rows}[case["what"]](case, out)


def frames_equal(out, a, b, message, columns=None, tol=1e-9):
    a, b = a.reset_index(), b.reset_index()
    if out.check(a.shape == b.shape and list(a.columns) == list(b.columns), message + " (rows)", got=list(a.shape), want=list(b.shape)):
        cols = columns or list(a.columns)
        for c in cols:
            out.close(a[c].to_numpy(float), b[c].to_numpy(float), f"{message}: {c}", names="row", tol=tol)
    out.states += len(a)
    out.transitions += a.size
    out.traces += 1


def scale(case, out):
    """Scaling every wage by s is raising every wage constant by log(s)."""
    import numpy as np
    from mc import impl

    for s in (1.3, 0.8, 2.0):
        w = world.World({"agents": 150, **case["cfg"], "elasticity": s}).write()
        a = impl.simulate(w.params_df, w.spec, biased_exp=case["biased"])
        A = impl.Impl(w)
        w.remove()
        w = world.World({"agents": 150, **case["cfg"], "elasticity": 1})
        w.params_df = w.params_df.copy()
        for n in world.EDUC_NAMES:
            w.params_df.loc[("const_wage_eq", f"gamma_0_{n}"), "value"] += np.log(s)
        w.write()
        b = impl.simulate(w.params_df, w.spec, biased_exp=case["biased"])
        B = impl.Impl(w)
        w.remove()
        out.close(A.solve(case["biased"])[1], B.solve(case["biased"])[1], "scaling wages is not the same as raising the wage constants: values")
        frames_equal(out, a, b, "scaling wages is not the same as raising the wage constants")
    out.sample = {"rows": len(a)}


def types(case, out):
    """Types are labels: only their own shifters count, wherever they stand."""
    import numpy as np
    from mc import impl

    K = max(3, {**world.DEFAULT, **case["cfg"]}["types"])
    w = world.World({**case["cfg"], "types": K}).write()
    A = impl.Impl(w)
    w.remove()
    V = A.tensor(A.solve(case["biased"])[1])
    base = w.params_df
    for perm in itertools.permutations(range(1, K)) if K <= 4 else [tuple(range(K - 1, 0, -1))]:
        df = base.copy()
        for k, j in enumerate(perm, start=1):
            for x in "pf":
                df.loc[("hetrg_unobs", f"theta_{x}{k}"), "value"] = base.loc[("hetrg_unobs", f"theta_{x}{j}"), "value"]
        W = A.tensor(A.solve(case["biased"], params=impl.read_model_params_init(df)[1])[1])
        out.close(W, V[:, :, :, [0, *perm]], "relabelling types changes more than labels", names="period,educ,lagged,type,age,partner,grid,column")
        out.states += V.size // 4
        out.transitions += V.size
        out.traces += 1
    # two types with the same tastes have the same values
    df = base.copy()
    for x in "pf":
        df.loc[("hetrg_unobs", f"theta_{x}1"), "value"] = 0.0
        df.loc[("hetrg_unobs", f"theta_{x}2"), "value"] = 0.0
    W = A.tensor(A.solve(case["biased"], params=impl.read_model_params_init(df)[1])[1])
    out.close(W[:, :, :, 1], W[:, :, :, 0], "types with the baseline's tastes have other values")
    out.close(W[:, :, :, 2], W[:, :, :, 0], "types with the baseline's tastes have other values")
    # a type split into equal parts: the same women live the same lives
    w = world.World({"agents": 400, **case["cfg"], "types": 3, "shares": "equal"}).write()
    last = w.params_df.copy()
    whole = impl.simulate(last, w.spec, biased_exp=case["biased"])
    for parts in (2, 5, 10):
        df = last.copy()
        share = df.loc[("shares", "share_2"), "value"] / parts
        df.loc[("shares", "share_2"), "value"] = share
        for k in range(3, 2 + parts):
            df.loc[("shares", f"share_{k}"), :] = share
            for x in "pf":
                df.loc[("hetrg_unobs", f"theta_{x}{k}"), :] = df.loc[("hetrg_unobs", f"theta_{x}2"), "value"]
        split = impl.simulate(df, w.spec, biased_exp=case["biased"])
        out.check(set(split["Type"]) == set(range(2 + parts)), "a type that was split is not drawn in all its parts", parts=parts,
                  got=sorted(set(split["Type"])))
        split["Type"] = split["Type"].clip(upper=2)
        frames_equal(out, split, whole, "splitting a type changes the data")
    w.remove()
    # fewer types: the values of those that stay are unaffected
    for K2 in range(1, K):
        w = world.World({**case["cfg"], "types": K2}).write()
        B = impl.Impl(w)
        w.remove()
        out.close(B.tensor(B.solve(case["biased"])[1]), V[:, :, :, :K2], "the number of types changes the values of a type")
        out.traces += 1
    out.sample = {"types": K}


def education(case, out):
    """Education levels with equal parameters, laws and partners have equal values; levels may be dropped."""
    import numpy as np
    from mc import impl

    w = world.World({**case["cfg"]})
    E = w.cfg["educ_years"]
    w.params_df = w.params_df.copy()
    for cat, pat in (("const_wage_eq", "gamma_0_{}"), ("exp_return", "gamma_1_{}"), ("exp_increase_p", "gamma_p_{}"),
                     ("disutil_work", "no_kids_f_educ_{}"), ("disutil_work", "yes_kids_f_educ_{}"),
                     ("disutil_work", "no_kids_p_educ_{}"), ("disutil_work", "yes_kids_p_educ_{}")):
        for n in world.EDUC_NAMES:
            w.params_df.loc[(cat, pat.format(n)), "value"] = w.params_df.loc[(cat, pat.format("middle")), "value"]
    w.spec["EXOG_PROC"]["partner_cf_educ"] = 0.0
    for k in ("child", "arrival", "separation"):
        t = w.tables[k].copy()
        lev = t.index.get_level_values("educ_level")
        for e in sorted(set(lev)):
            t.iloc[lev == e, 0] = t.iloc[lev == 0, 0].to_numpy()
        w.tables[k] = t
    w.write()
    A = impl.Impl(w)
    w.remove()
    V = A.tensor(A.solve(case["biased"])[1])
    for e in range(1, len(E)):
        out.close(V[:, e], V[:, 0], "education matters beyond its parameters, laws and partners", names="period,lagged,type,age,partner,grid,column")
    out.states += V.size // 4
    # dropping the highest level leaves the others alone
    w = world.World(case["cfg"]).write()
    B = impl.Impl(w)
    w.remove()
    U = B.tensor(B.solve(case["biased"])[1])
    for n in range(1, len(E)):
        w = world.World({**case["cfg"], "educ_years": E[:n]})
        full = world.World(case["cfg"])
        for k in ("arrival", "separation"):
            t = full.tables[k]
            w.tables[k] = t[t.index.get_level_values("educ_level") < n]
        w.write()
        C = impl.Impl(w)
        w.remove()
        out.close(C.tensor(C.solve(case["biased"])[1]), U[:, :n], "the number of education levels changes the values of a level")
        out.traces += 1
        out.transitions += V.size
    out.sample = {"levels": len(E)}


def last_rows(case, out):
    """A child too old to matter is no child: the oldest age changes nothing once nobody can reach it."""
    import numpy as np
    from mc import impl

    cfg = {**case["cfg"], "child_init_max": 0}
    T = {**world.DEFAULT, **cfg}["T"]
    top = T + 1  # born or entered at age 0: nobody gets older than T within the horizon
    w = world.World({"agents": 150, **cfg, "child_age_max": top}).write()
    a = impl.simulate(w.params_df, w.spec, biased_exp=case["biased"])
    A = impl.Impl(w)
    V = A.tensor(A.solve(case["biased"])[1])
    w.remove()
    for more in (1, 4):
        w = world.World({"agents": 150, **cfg, "child_age_max": top + more}).write()
        b = impl.simulate(w.params_df, w.spec, biased_exp=case["biased"])
        B = impl.Impl(w)
        W = B.tensor(B.solve(case["biased"])[1])
        w.remove()
        for t in range(T):
            # ages that still fit below the limit until the horizon
            fit = min(top - (T - 1 - t), top) + 2
            out.close(W[t][..., :fit, :, :, :], V[t][..., :fit, :, :, :], "an age limit nobody reaches changes values")
        frames_equal(out, b, a, "an age limit nobody reaches changes the data")
    out.sample = {"oldest": top}
