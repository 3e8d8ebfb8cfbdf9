"""Simulated decisions are optimal and every reported component is the model's."""
from mc import families, world

BOUNDS = (
    "every configuration of the solver family (see C08) x every entry situation x both expectation modes; "
    "every simulated row is recomputed"
)
ASSUMPTIONS = [
    "the wage shock of a woman who does not work is read from the seeded shock table",
    "rows whose resources hit the numerical floor are only required to be very bad",
]
TECHNIQUE = "exhaustive entry situations on the real simulation, every decision replayed on the reference model"
LEVEL_NOTE = "Every row of every simulated population is recomputed from the raw inputs and the solution's values."


def cases(tier):
    return [{"cfg": c, "biased": i % 2 == 0} for i, c in enumerate(families.solver_configs(tier))] + [
        {"cfg": c, "biased": i % 2 == 1} for i, c in enumerate(families.solver_configs(tier)) if tier != "quick" or i < 60]


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, simx

    cfg = case["cfg"]
    w = world.World(cfg).write()
    I = impl.Impl(w)
    w.remove()
    M = ref.Model(w.spec, w.params_df, w.tables)
    ncu, em = I.solve(case["biased"])
    E = I.tensor(em)
    cells = int(np.prod(simx.entry_product(I)))
    if cells <= 600:
        df, P, n = simx.run_covering(I, ncu, em, {}, start=4)
    else:
        n = 2500
        df = I.simulate(ncu, em, spec=I.spec._replace(num_agents_sim=n))
        P = simx.Panel(df, M.T)
    col, Z = simx.shock_columns(P, M, n, M.sigma, w.spec["SIMULATION"]["seed_sim"])
    e_all, k_all = P.at_entry("Education_Level").astype(int), P.at_entry("Type").astype(int)
    eps = 1e-13
    for t in range(M.T):
        on = P.present[:, t]
        if not on.any():
            continue
        e, k, cc = e_all[on], k_all[on], col[on]
        l, a, q, ch = (P[c][on, t].astype(int) for c in ("Lagged_Choice", "Age_Youngest_Child", "Partner_Indicator", "Choice"))
        x = P["Experience_Stock"][on, t]
        inc = M.inc(e, a, False)
        lw = M.log_wage(e, x, t, inc)
        eq = M.equiv(a, q)
        pref = M.pref(e, k, a)
        V = np.column_stack([P[f"Value_Function_{c}"][on, t] for c in "NPF"])
        U = np.column_stack([P[f"Flow_Utility_{c}"][on, t] for c in "NPF"])
        C = np.column_stack([P[f"Continuation_Value_{c}"][on, t] for c in "NPF"])
        N = np.column_stack([P[f"Non_Consumption_Utility_{c}"][on, t] for c in "NPF"])
        who = f"period {t}: agent,choice"
        out.close(P["Male_Wages"][on, t], M.male_wage(t, e, q), "partner's earnings in the data are wrong", names=who)
        out.close(N, np.column_stack(pref), "reported non-pecuniary utility is wrong", names=who)
        v = E[t][e, l, k, a + 1, q]
        want_c = np.stack([ref.interp(M.grid, v[:, :, c], np.clip(x, 0, 1)[:, None])[:, 0] for c in range(3)], axis=1)
        out.close(C, want_c, "reported continuation value is not the solution's", names=who)
        known = cc >= 0
        out.count("rows_with_unknown_shock", int((~known).sum()))
        z = np.where(known, Z[t][np.maximum(cc, 0)], 0.0)
        res = [np.asarray(M.resources_out(t, e, l, a, q, lw))]
        res += [np.asarray(M.resources_work(c, t, e, a, q, lw + z)) for c in (1, 2)]
        for c in range(3):
            r = np.asarray(res[c], float)
            rows = known | (c == 0)
            fine = rows & (r > eps)
            want = M.utility(np.maximum(r, eps) / eq, pref[c])
            out.close(U[:, c], want, "reported flow utility is not that of the household's resources"
                      + (" without work", " in part-time", " in full-time")[c], names=who, mask=fine)
            low = rows & ~fine
            if low.any():
                if M.mu < 0:
                    out.check((U[low, c] <= want[low] * (1 - 1e-9)).all(), "resources at the floor are not penalised")
                out.count("rows_at_floor", int(low.sum()))
        out.close(V, U + M.delta * C, "reported value is not flow utility plus discounted continuation", names=who)
        best = V.max(axis=1)
        got = V[np.arange(len(ch)), ch]
        bad = ~(got >= best - 1e-12 * (1 + np.abs(best)))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            out.fail("a woman does not take her best alternative", period=t, choice=int(ch[i]), values=V[i].tolist(), cases=int(bad.sum()))
        out.states += len(ch)
        out.transitions += 3 * len(ch)
        for c in range(3):
            out.count(f"chosen_{'NPF'[c]}", int((ch == c).sum()))
    out.traces += len(P.ids)
    out.sample = {"agents": int(n), "choices_of_first": P["Choice"][0].tolist()[:6]}
