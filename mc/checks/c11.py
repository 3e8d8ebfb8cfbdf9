"""Interpolation: exact on any increasing grid, and read alike by solution and simulation."""
import itertools

BOUNDS = (
    "every increasing grid on a twelfth lattice with 2..6 points (thorough 2..9) x every unit value vector x a "
    "dense query lattice; simulation: every such grid family member x every entry situation and stock reached"
)
ASSUMPTIONS = ["interpolation is linear between neighbouring grid points; queries lie in the unit interval"]
TECHNIQUE = "exhaustive enumeration of grids, unit value vectors and queries; simulated values re-read from the solution"
LEVEL_NOTE = (
    "Linear interpolation is determined by its action on unit vectors; all of them are enumerated for every "
    "grid in the bound. The simulation's reported continuation values are compared on every simulated row."
)


def grids(n_max):
    inner = range(1, 12)
    for n in range(2, n_max + 1):
        for mid in itertools.combinations(inner, n - 2):
            yield [0.0] + [m / 12 for m in mid] + [1.0]


def cases(tier):
    allg = list(grids(6 if tier == "quick" else 9))
    out = [{"what": "law", "grids": allg[i::16]} for i in range(16)]
    fine = [[(i / n) ** p for i in range(n + 1)] for n in (16, 32, 63, 100, 200) for p in (1, 2, 0.5)]
    out += [{"what": "law", "grids": fine}] + [{"what": "sim", "grid": g, "elasticity": 1} for g in fine[3:6]]
    sims = [g for g in allg if len(g) <= 4]
    sims = sims[:: 6 if tier == "quick" else 1] + [allg[-1]]
    out += [{"what": "sim", "grid": g, "elasticity": el} for g in sims for el in (1,)]
    return out


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, simx, world
    from soepy.shared.interpolation import linear_interp_1d

    if case["what"] == "law":
        import jax
        import jax.numpy as jnp

        f = jax.jit(jax.vmap(linear_interp_1d, in_axes=(None, 0, None)))
        for g in case["grids"]:
            g = np.array(g)
            x = np.unique(np.concatenate([g, np.linspace(0, 1, 49), g[1:] - 1e-9, g[:-1] + 1e-9]))
            V = np.vstack([np.eye(len(g)), g, np.ones(len(g)), (g - 0.3) ** 2])
            got = np.asarray(f(jnp.asarray(g), jnp.asarray(V), jnp.asarray(x)))
            want = ref.interp(g, V, x[None, :])
            out.close(got, want, f"interpolation is wrong on grid {np.round(g, 4).tolist()}", names="value vector,query")
            at = np.searchsorted(x, g)
            out.check(np.allclose(got[: len(g), at], np.eye(len(g)), atol=1e-12), "a grid point is not reproduced")
            out.check((got[: len(g)] >= -1e-12).all() and (got[: len(g)] <= 1 + 1e-12).all(), "interpolation overshoots")
            q = np.array([float(linear_interp_1d(jnp.asarray(g), jnp.asarray(V[-1]), jnp.asarray(v))) for v in x[::17]])
            out.close(q, want[-1, ::17], "scalar query differs")
            out.states += got.size
            out.transitions += x.size
        out.traces += len(case["grids"])
        out.sample = {"grid": g.tolist(), "queries": int(x.size)}
        return

    cfg = {"T": 4, "types": 2, "grid": "uniform2", "init_exp_max": 2, "educ_years": [0, 0, 1]}
    w = world.World(cfg)
    w.spec["exp_grid"] = case["grid"]
    w.write()
    I = impl.Impl(w)
    w.remove()
    E = I.tensor(I.solve(False)[1])
    ncu, em = I.solve(False)
    df, P, n = simx.run_covering(I, ncu, em, {}, start=5)
    e, k = P.at_entry("Education_Level").astype(int), P.at_entry("Type").astype(int)
    for t in range(4):
        on = P.present[:, t]
        l, a, q = (P[c][on, t].astype(int) for c in ("Lagged_Choice", "Age_Youngest_Child", "Partner_Indicator"))
        x = P["Experience_Stock"][on, t]
        v = E[t][e[on], l, k[on], a + 1, q]  # (agents, grid, 4)
        for c, name in enumerate(("N", "P", "F")):
            want = ref.interp(case["grid"], v[:, :, c], np.clip(x, 0, 1)[:, None])[:, 0]
            out.close(P[f"Continuation_Value_{name}"][on, t], want,
                      "the simulation reads another continuation value than the solution holds", names="agent")
        out.states += int(on.sum())
        out.transitions += 3 * int(on.sum())
    out.traces += len(P.ids)
    out.sample = {"grid": case["grid"], "agents": int(n)}
