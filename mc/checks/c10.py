"""Integration over wage shocks: exactly the configured rule."""
import itertools

BOUNDS = "every rule x 1..12 points (thorough 1..24) x shock sizes x seeds, all states of a two-period world"
ASSUMPTIONS = ["Monte Carlo draws: seeded standard normals with equal weights; quadrature: Gauss-Hermite"]
TECHNIQUE = "exhaustive enumeration of integration settings, expected values compared on every state"
LEVEL_NOTE = "Every setting in the bound and every state is compared with independently generated nodes and weights."


def cases(tier):
    n = range(1, 13) if tier == "quick" else range(1, 25)
    out = []
    for k in n:
        out.append({"n": k, "sigmas": [0.0, 0.6, 1.3, 2.0] if tier == "quick" else [0.0, 0.05, 0.6, 1.0, 1.3, 2.0, 3.0],
                    "seeds": [977, 0, 31415]})
    out.append({"n": 5, "sigmas": [0.6], "seeds": [977, 0], "T": 45})
    out.append({"n": 60, "sigmas": [0.6], "seeds": [5]})
    out.append({"n": 100, "sigmas": [0.6], "seeds": [5, 977]})
    if tier != "quick":
        out += [{"n": n, "sigmas": [0.6], "seeds": [5, 977]} for n in (33, 49, 160, 257)]
    return out


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, world

    for regime, sigma in itertools.product(("elterngeld", "erziehungsgeld"), case["sigmas"]):
        values = {}
        for method, seed in [("quadrature", case["seeds"][0]), ("quadrature", 5)] + [
                ("monte_carlo", s) for s in case["seeds"]]:
            cfg = {"T": case.get("T", 2), "types": 1, "sigma": sigma, "ndraws": case["n"], "integration": method,
                   "seed_emax": seed, "regime": regime, "grid": "uniform3", "child_age_max": 2}
            w = world.World(cfg).write()
            I = impl.Impl(w)
            w.remove()
            M = ref.Model(w.spec, w.params_df, w.tables)
            E = I.tensor(I.solve(False)[1])
            for t in reversed(range(M.T)):
                want = M.emax(t, E[t][..., :3], False)
                out.close(E[t][..., 3], want, f"expected value is not the {method} rule's", names="educ,lagged,type,age,partner,grid")
                out.states += want.size
                out.transitions += want.size * case["n"]
            values[method, seed] = E
            out.traces += 1
        base = values["quadrature", case["seeds"][0]]
        out.check(np.array_equal(base, values["quadrature", 5]), "quadrature depends on the Monte Carlo seed")
        if sigma == 0.0:
            for k, v in values.items():
                out.close(v, base, f"without wage risk the rule matters ({k[0]})")
        else:
            mc = [values["monte_carlo", s] for s in case["seeds"]]
            if len(mc) > 1:
                out.check(not np.array_equal(mc[0], mc[1]), "Monte Carlo ignores its seed")
    out.sample = {"n": case["n"], "value": float(base[0, 0, 0, 0, 0, 0, 0, 3])}
