"""Biased beliefs change expectations only; what really happens follows the true law."""
from mc import families, world

BOUNDS = (
    "configurations of the solver family (see C08; quick: every part-time law, every deviation, half of the rest): all values compared; simulated "
    "populations under both belief modes: every row"
)
ASSUMPTIONS = ["biased women expect a part-time year to count like a full-time year"]
TECHNIQUE = "exhaustive enumeration of states under both belief modes, values and simulated laws compared"
LEVEL_NOTE = (
    "Equality of value tables is checked on every state; the law of motion of every simulated row is replayed "
    "with the true increment under both belief modes."
)


def cases(tier):
    cfgs = families.solver_configs(tier)
    out = [{"cfg": c, "public": True} if i % 8 == 0 or tier != "quick" else {"cfg": c} for i, c in enumerate(cfgs)]
    if tier == "quick":
        laws = [{"cfg": c, "public": True} for c in cfgs if list(c) == ["gamma_p"]]
        laws += [{"public": True, "cfg": {"T": 5, "gamma_p": "above", "gamma_mom": 0.0, "regime": r, "educ_years": [0, 0, 0]}} for r in ("elterngeld", "erziehungsgeld")]
        out = [c for c in out if "gamma_p" not in c["cfg"]]
        return laws + out[:40] + out[40::2]
    return out[::2] + out[1::2]


def true_law(out, I, M, df, n, how=""):
    """Realised experience and wages of every simulated row are the true ones."""
    import numpy as np
    from mc import simx

    P = simx.Panel(df, M.T)
    e = P.at_entry("Education_Level").astype(int)
    for t in range(M.T - 1):
        on = P.present[:, t] & P.present[:, t + 1]
        inc = M.inc(e[on], P["Age_Youngest_Child"][on, t].astype(int), False)
        want = M.next_stock(P["Experience_Stock"][on, t], t, inc, P["Choice"][on, t])
        out.close(P["Experience_Stock"][on, t + 1], want, "realised experience does not follow the true law" + how, names="agent")
        out.transitions += int(on.sum())
    col, Z = simx.shock_columns(P, M, n, M.sigma, I.world.spec["SIMULATION"]["seed_sim"])
    works = ~np.isnan(simx.residuals(P, M)).all(axis=1)
    out.check((col[works] >= 0).all(), "a realised wage is not the true wage of her experience" + how, women=int((col[works] < 0).sum()))
    out.traces += len(P.ids)


def run_case(case, out):
    import numpy as np
    from mc import impl, ref

    def build(extra):
        w = world.World({**case["cfg"], **extra}).write()
        I = impl.Impl(w)
        M = ref.Model(w.spec, w.params_df, w.tables)
        w.remove()
        return I, M

    I, M = build({})
    Ione, _ = build({"gamma_p": "one", "gamma_mom": 0.0})
    ncu_b, em_b = I.solve(True)
    ncu_1, em_1 = Ione.solve(False)
    out.close(em_b, em_1, "biased values differ from values under full credit for part-time work", names="state,grid,column")
    ncu_1b, em_1b = Ione.solve(True)
    out.close(em_1b, em_1, "beliefs matter although they are correct", names="state,grid,column")
    ncu_u, em_u = I.solve(False)
    out.close(ncu_b, ncu_u, "beliefs change the taste for work")
    # without a future, beliefs about it are irrelevant (unless the part-time credit exceeds one)
    if (M.gamma_p + M.gamma_mom <= 1).all():
        Eb, Eu = I.tensor(em_b)[-1], I.tensor(em_u)[-1]
        out.close(Eb, Eu, "beliefs change values in the last period")
    out.states += 3 * em_b.shape[0] * em_b.shape[1]
    out.transitions += 3 * em_b.size
    # realised law of motion and wages are the true ones under both modes
    n = 400
    for biased, em, ncu in ((True, em_b, ncu_b), (False, em_u, ncu_u)):
        df = I.simulate(ncu, em, spec=I.spec._replace(num_agents_sim=n))
        true_law(out, I, M, df, n)
        if not case.get("public"):
            continue
        # the same through every public route to simulated data
        w = world.World(case["cfg"]).write()
        w.spec["SIMULATION"]["num_agents_sim"] = n
        routes = {
            "simulate": lambda: impl.simulate(w.params_df, w.spec, biased_exp=biased),
            "prepared": lambda: impl.get_simulate_func(w.params_df, w.spec, biased_exp=biased)(w.params_df, w.spec),
            "arguments": lambda: impl.partial_simulation(I, biased, False)(
                model_params_init_file_name=w.params_df, model_spec_init_file_name=w.spec),
        }
        if biased:  # biased beliefs are what a call that does not say gets
            routes["unsaid"] = lambda: impl.simulate(w.params_df, w.spec)
        if impl.partial_simulation(I, biased, False) is None:
            del routes["arguments"]
        for name, route in routes.items():
            got = route().reset_index()
            true_law(out, I, M, got, n, f" ({name}, biased={biased})")
            if out.check(got.shape == df.shape, f"{name} gives another table than its parts", biased=biased):
                out.close(got.to_numpy(dtype=float), df.to_numpy(dtype=float), f"{name} (biased={biased}) values situations under another belief",
                          names="row,column")
        w.remove()
    out.sample = {"value_gap_between_beliefs": float(np.abs(em_b - em_u).max())}
