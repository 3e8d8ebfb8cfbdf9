"""Solution and simulation describe the same life: promised value = expected realised utility."""
import itertools

from mc import world

BOUNDS = (
    "every entry situation x every sequence of births and partner events to depth 4 (3 in the quick tier for "
    "random nature), all policy switches, experience laws whose stocks fall on the grid"
)
ASSUMPTIONS = [
    "no wage risk (so that the exhaustively enumerated branches carry the whole expectation)",
    "experience increments 0, 1/2 or 1 and a grid in twelfths: continuation values need no approximation",
]
TECHNIQUE = "exhaustive enumeration of all nature branches of the real simulation, probability-weighted sum against the solution"
LEVEL_NOTE = (
    "For every entry situation the solution's value is compared with the probability-weighted discounted utility "
    "over all simulated branches; nothing is sampled. The recorded birth-timing defect is reported separately."
)


def cases(tier):
    out = []
    sw = list(itertools.product(["elterngeld", "erziehungsgeld"], [True, False], [1, 1.4]))
    laws = [("half", 0.0), ("half", 0.5), ("one", 0.0), ("zero", 0.0)]
    for i, (r, s, el) in enumerate(sw):
        for j, (gp, gm) in enumerate(laws):
            if tier == "quick" and (i + j) % 4:
                continue
            base = {"regime": r, "splitting": s, "elasticity": el, "gamma_p": gp, "gamma_mom": gm,
                    "mu": [-0.5, 0.4][(i + j) % 2], "child_age_max": [1, 3, 6][(i + j) % 3], "delta": [0.9, 1.0, 0.5][j % 3],
                    "educ_years": [[0, 0, 0], [0, 1, 2]][i % 2], "child_care": ["normal", "steep"][j % 2],
                    "child_benefits": [43.0, 0.0][i % 2]}
            out.append({"what": "fixed", "cfg": {**base, "T": 4, "last_birth": 9}})
            out.append({"what": "random", "cfg": {**base, "T": 3 if tier == "quick" else 4, "last_birth": [0, 1, 9][(i + j) % 3]}})
    # every pair of rules and incomes, with tastes that make each choice the one whose promise counts
    axes = {"splitting": [False], "elasticity": [1.4], "mu": [0.4], "child_age_max": [1, 6], "delta": [1.0],
            "child_care": ["steep"], "benefits": ["small", "wide"], "child_benefits": [0.0], "wage_shift": [-1.0, 0.8],
            "partner_shift": [-1.5, 1.5], "taste": ["home", "pt", "ft"], "gamma_mom": [0.5]}
    for r in ("elterngeld", "erziehungsgeld"):
        for i, c in enumerate(world.covering(2 if tier == "quick" else 3, axes, {"regime": r, "gamma_p": "half", "gamma_mom": 0.0, "T": 3, "last_birth": 9})):
            out.append({"what": "fixed", "cfg": c})
    out.append({"what": "offset", "cfg": {"T": 4, "last_birth": 9, "gamma_p": "half", "gamma_mom": 0.0}})
    out.append({"what": "offset", "cfg": {"T": 4, "last_birth": 1, "gamma_p": "half", "gamma_mom": 0.5}})
    return out


def setup(cfg):
    from mc import impl, ref

    cfg = {"sigma": 0.0, "grid": "uniform13", "init_exp_max": 0, "types": 2, "child_init_max": 1, "ndraws": 2, **cfg}
    w = world.World(cfg).write()
    I = impl.Impl(w)
    w.remove()
    return I, ref.Model(w.spec, w.params_df, w.tables)


def realised(P, M):
    """Discounted utility of every woman's simulated life, and the value promised at entry."""
    import numpy as np

    total = np.zeros(len(P.ids))
    for t in range(P.T):
        on = P.present[:, t]
        ch = np.nan_to_num(P["Choice"][:, t]).astype(int)
        flow = np.stack([P[f"Flow_Utility_{c}"][:, t] for c in "NPF"], axis=1)[np.arange(len(ch)), ch]
        total += np.where(on, M.delta ** np.maximum(t - P.entry, 0) * np.nan_to_num(flow), 0.0)
    V = np.stack([P.at_entry(f"Value_Function_{c}") for c in "NPF"], axis=1)
    return total, V[np.arange(len(V)), P.at_entry("Choice").astype(int)]


def shift(pc):
    """The table whose row t is row t + 1 (what the simulation applies between t and t + 1)."""
    import numpy as np

    return np.vstack([pc[1:], np.zeros((1, pc.shape[1]))])


def run_case(case, out):
    {"fixed": fixed, "random": random_nature, "offset": offset}[case["what"]](case, out)


def fixed(case, out):
    """Nature known in advance: the promise is kept to the last digit on every path."""
    import numpy as np
    from mc import simx

    I, M = setup(case["cfg"])
    T = M.T
    m = 2 ** (T - 1)
    bits = lambda v: [(v >> i) & 1 for i in range(T - 1)]  # noqa: E731
    worst = 0.0
    for b in range(m):
        for q in range(m) if b in (0, m - 1) else (b, m - 1 - b):
            probs = simx.nature(I, births=[0] + bits(b), partner=np.array(bits(q) + [0]))
            # the solution weighs births between t and t+1 with row t, the simulation with row t+1
            # (known finding); aligned tables make both see the same future
            ncu, em = I.solve(False, probs={**probs, "prob_child": shift(probs["prob_child"])})
            df, P, n = simx.run_covering(I, ncu, em, probs, start=3)
            real, promised = realised(P, M)
            out.close(real, promised, "realised utility differs from the value promised by the solution", tol=1e-8)
            worst = max(worst, float(np.max(np.abs(real - promised))))
            out.states += int(P.present.sum())
            out.transitions += int(P.present[:, 1:].sum())
            out.traces += len(P.ids)
    out.sample = {"largest_gap": worst}


def random_nature(case, out):
    """Random nature: the promise is the probability-weighted mean over every branch."""
    import numpy as np
    from mc import simx

    I, M = setup(case["cfg"])
    T, E = M.T, M.E
    m = 2 ** (T - 1)
    bits = lambda v: [(v >> i) & 1 for i in range(T - 1)]  # noqa: E731
    ncu, em = I.solve(False)
    n = 40 * int(np.prod(simx.entry_product(I)))
    acc, weight, promised, first = 0.0, 0.0, None, None
    for b in range(m):
        for q in range(m):
            births, partner = [0] + bits(b), bits(q) + [0]
            probs = {**simx.uniform_entry(I), **simx.nature(I, births=births, partner=np.array(partner))}
            df = I.simulate(ncu, em, spec=I.spec._replace(num_agents_sim=n), probs=probs)
            P = simx.Panel(df, T)
            real, prom = realised(P, M)
            e = P.at_entry("Education_Level").astype(int)
            cur = P.at_entry("Partner_Indicator").astype(int)
            pr = np.ones(len(e))
            for t in range(T - 1):
                live = t >= P.entry
                pb = M.p_child[t][e]
                fb = np.where(births[t + 1] == 1, pb, 1 - pb)
                p0, p1 = M.p_partner(t, e, cur)
                fq = np.where(partner[t] == 1, p1, p0)
                pr = pr * np.where(live, fb * fq, 0.25)
                cur = np.where(live, partner[t], cur)
            if first is None:
                first = P.ids
                promised = prom
            out.check(np.array_equal(first, P.ids), "the population changes with nature")
            out.close(prom, promised, "the promised value changes with nature")
            acc = acc + pr * real
            weight = weight + pr
            out.states += int(P.present.sum())
            out.transitions += int(P.present[:, 1:].sum())
            out.traces += len(P.ids)
    assert np.allclose(weight, 1.0), weight
    out.check(len(P.cells(simx.ENTRY)) == np.prod(simx.entry_product(I)) // E * sum(y < T for y in M.educ_years),
              "harness: entry situations not covered")
    out.close(acc, promised, "expected realised utility differs from the value promised by the solution", tol=1e-8)
    out.sample = {"branches": m * m, "value": float(promised[0]), "mean_realised": float(acc[0])}


def offset(case, out):
    """One birth table for both sides: are expected and simulated births the same event?"""
    import numpy as np
    from mc import simx

    I, M = setup(case["cfg"])
    T = M.T
    for row in range(T):
        births = [1.0 if t == row else 0.0 for t in range(T)]
        probs = simx.nature(I, births=births, partner=np.zeros(T))
        if row > M.last_birth:
            probs["prob_child"][row] = 0
        ncu, em = I.solve(False, probs=probs)
        df, P, n = simx.run_covering(I, ncu, em, probs, start=2)
        real, promised = realised(P, M)
        gap = np.abs(real - promised) > 1e-8 * (1 + np.abs(promised))
        if gap.any():
            law = {**probs, "prob_child": shift(probs["prob_child"])}
            ncu2, em2 = I.solve(False, probs=law)
            df2, P2, _ = simx.run_covering(I, ncu2, em2, probs, start=2)
            r2, p2 = realised(P2, M)
            known = np.allclose(r2, p2, rtol=1e-8, atol=1e-8)
            i = int(np.flatnonzero(gap)[0])
            out.fail("a birth tabulated for one period is expected and simulated in different periods",
                     key="birth-row-offset" if known else None, table_row=row, promised=float(promised[i]),
                     realised=float(real[i]), women=int(gap.sum()))
        out.states += int(P.present.sum())
        out.transitions += int(P.present[:, 1:].sum())
        out.traces += len(P.ids)
    out.sample = {"rows": T}
