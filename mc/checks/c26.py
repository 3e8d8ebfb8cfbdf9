"""Observed wages: missing exactly for women who do not work; shocks are personal and policy-independent."""
import itertools

from mc import world

BOUNDS = "every choice sequence to depth 3 (thorough 4) x entry situations x shock sizes x seeds, both output forms; populations up to 70 000 women (thorough 140 000)"
ASSUMPTIONS = ["shocks come from one seeded table of standard normals, one column per woman"]
TECHNIQUE = "exhaustive enumeration of forced choice sequences on the real simulation, wage residuals matched to the shock table"
LEVEL_NOTE = "Every row of every forced history is judged; shock residuals are matched against the seeded table exactly."


def cases(tier):
    T = 3 if tier == "quick" else 4
    out = []
    for sigma, el, ey, gp in itertools.product((0.6, 0.05, 1.3, 0.0), (1, 1.4), ([0, 0, 0], [0, 1, 2]), ("generic", "one")):
        if tier == "quick" and gp == "one" and el == 1.4:
            continue
        out.append({"cfg": {"T": T, "sigma": sigma, "elasticity": el, "educ_years": ey, "gamma_p": gp}})
    out.append({"cfg": {"T": 30, "sigma": 0.6, "types": 6, "educ_years": [0, 1, 2]}})
    out.append({"cfg": {"T": T, "seed_sim": 0}})
    out.append({"cfg": {"T": 2, "educ_years": [0, 0, 0]}, "start": 110 if tier == "quick" else 220})  # far beyond every 16-bit number
    return out


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, simx

    cfg = dict(case["cfg"])
    T = cfg["T"]
    seqs = simx.sequences(T) if T < 10 else [tuple((k + t * (k + 1) // 2) % 3 for t in range(T)) for k in range(6)]
    cfg.update(types=len(seqs), shares="equal", grid="uniform2")
    w = world.World(cfg).write()
    I = impl.Impl(w)
    w.remove()
    M = ref.Model(w.spec, w.params_df, w.tables)
    perm = [tuple(2 - c for c in s) for s in seqs]
    shocks = []
    ncu, em = simx.forced_values(I, simx.by_type(seqs))
    df, P, n = simx.run_covering(I, ncu, em, {}, start=case.get("start", 3))
    seed = w.spec["SIMULATION"]["seed_sim"]
    for which in (seqs, perm):
        ncu, em = simx.forced_values(I, simx.by_type(which))
        for sparse in (False, True):
            df = I.simulate(ncu, em, sparse=sparse, spec=I.spec._replace(num_agents_sim=n), probs=simx.uniform_entry(I))
            P = simx.Panel(df, T)
            wage, ch = P["Wage_Observed"], P["Choice"]
            out.check(np.array_equal(np.isnan(wage[P.present]), ch[P.present] == 0), "a wage is missing for a worker or reported for a non-worker")
            out.check((wage[P.present & (ch > 0)] > 0).all(), "an observed wage is not positive")
            out.states += int(P.present.sum())
            out.transitions += int(P.present.sum())
            out.traces += len(P.ids)
        # residuals on the table
        col, Z = simx.shock_columns(P, M, n, M.sigma, seed)
        works = (ch > 0).any(axis=1)
        bad = works & (col < 0)
        out.check(not bad.any(), "a wage shock is not the woman's own draw from the seeded table", women=int(bad.sum()),
                  example=None if not bad.any() else int(P.ids[np.flatnonzero(bad)[0]]))
        if M.sigma > 0:
            used = col[works & (col >= 0)]
            out.check(len(set(used.tolist())) == len(used), "two women share their wage shocks")
        shocks.append(simx.residuals(P, M))
    both = ~np.isnan(shocks[0]) & ~np.isnan(shocks[1])
    out.close(shocks[0], shocks[1], "a wage shock depends on the choices made", tol=1e-7, mask=both)
    out.count("shocks_compared_across_policies", int(both.sum()))
    other = I.simulate(ncu, em, spec=I.spec._replace(num_agents_sim=n, seed_sim=seed + 1), probs=simx.uniform_entry(I))
    if M.sigma > 0:
        r = simx.Panel(other, T)
        out.check(not np.allclose(np.nan_to_num(simx.residuals(r, M)), np.nan_to_num(shocks[1])), "shocks ignore the simulation seed")
    out.sample = {"agents": int(n), "first_shocks": shocks[0][0].round(5).tolist()[:4]}
