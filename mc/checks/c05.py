"""Wage equation: education- and experience-specific, on the function and in simulated life courses."""
import itertools

BOUNDS = (
    "function: education x period 0..40, 60, 100 x initial maximum x increment x stock lattice x return variants; "
    "solution: six permanent wage scales, in every regime, grid, part-time law and belief; "
    "simulation: every working history up to depth 3, both experience scales, permanent wage scale, long careers"
)
ASSUMPTIONS = ["log wage = constant + return * log(1 + years of experience), times the permanent scale"]
TECHNIQUE = "exhaustive enumeration of the wage lattice and of forced working histories, compared with the wage equation"
LEVEL_NOTE = "Every lattice point and every worked period of every forced history is compared; no sampling."


def cases(tier):
    out = [{"what": "law", "cfg": {"gamma_1": g, "wage_shift": s}}
           for g in ("generic", "zero", "steep") for s in (0.0, -1.0)]
    sw = list(itertools.product(("elterngeld", "erziehungsgeld"), ("uniform5", "uneven4"), ("generic", "above"), (False, True)))
    out += [{"what": "solution", "cfg": {"regime": r, "grid": g, "gamma_p": gp, "T": 3}, "biased": b}
            for i, (r, g, gp, b) in enumerate(sw) if tier != "quick" or i % 3 == 0]
    T = 3 if tier == "quick" else 4
    for el, g1, gm, grid, ey in itertools.product(
            (1, 1.4, 0.7), ("generic", "steep"), (0.35, 1.1), ("uniform2", "uneven4"), ([0, 0, 0], [0, 1, 2])):
        if tier == "quick" and (g1 == "steep") != (gm == 1.1):
            continue
        out.append({"what": "sim", "cfg": {"T": T, "elasticity": el, "gamma_1": g1, "gamma_mom": gm, "grid": grid,
                                           "educ_years": ey}})
    for el in (1, 1.3):
        out.append({"what": "sim", "cfg": {"T": 40, "types": 8, "elasticity": el, "educ_years": [0, 2, 5],
                                           "last_birth": 24, "child_age_max": 10}})
    return out


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, simx, world
    from soepy.shared.wages import calculate_log_wage

    if case["what"] == "law":
        w = world.World(case["cfg"]).write()
        I = impl.Impl(w)
        w.remove()
        M = ref.Model(w.spec, w.params_df, w.tables)
        x = np.linspace(0, 1, 33)
        for t, init, inc in itertools.product([*range(0, 41), 60, 100], (0, 1, 4, 20), (0.0, 0.15, 0.5, 1.0, 1.45)):
            M.init_exp_max = init
            for e in range(3):
                want = M.gamma_0[e] + M.gamma_1[e] * np.log(1 + x * (init + max(t, t * inc)))
                got = calculate_log_wage(model_params=I.params, educ=np.full(x.shape, e), exp_stock=x, init_exp_max=init,
                                         pt_increment=np.full(x.shape, inc), period=t)
                out.close(got, want, "log wage differs from the wage equation", names=f"educ {e} period {t}")
                out.states += x.size
                out.transitions += x.size - 1
                if M.gamma_1[e] >= 0:
                    out.check((np.diff(np.asarray(got)) >= -1e-12).all(), "more experience lowers the wage")
        out.traces += 1
        out.sample = {"log_wage": float(want[-1])}
        return

    if case["what"] == "solution":
        return solution(case, out)
    cfg = dict(case["cfg"])
    T = cfg["T"]
    if T < 10:
        seqs = simx.sequences(T)
    else:
        seqs = [tuple((k + (t * (k + 2)) // 3) % 3 for t in range(T)) for k in range(8)]
    cfg.update(types=len(seqs), shares="equal", sigma=0.0)
    cfg.setdefault("last_birth", 1)
    w = world.World(cfg).write()
    I = impl.Impl(w)
    w.remove()
    M = ref.Model(w.spec, w.params_df, w.tables)
    ncu, em = simx.forced_values(I, simx.by_type(seqs))
    df, P, n = simx.run_covering(I, ncu, em, {}, start=6)
    e = P.at_entry("Education_Level").astype(int)
    for t in range(T):
        on = P.present[:, t] & (P["Choice"][:, t] > 0)
        if not on.any():
            continue
        inc = M.inc(e[on], P["Age_Youngest_Child"][on, t].astype(int), False)
        want = np.exp(M.log_wage(e[on], P["Experience_Stock"][on, t], t, inc))
        out.close(P["Wage_Observed"][on, t], want, f"observed wage differs from the wage equation in period {t}",
                  names="agent")
        out.states += int(on.sum())
        out.transitions += int(on.sum())
    out.traces += len(P.ids)
    out.sample = {"wage": P["Wage_Observed"][-1].round(5).tolist()[:6]}


def solution(case, out):
    """The wages behind the solved values: the scale multiplies them, whatever the scale."""
    import numpy as np
    from mc import impl, world

    for s in (0.1, 0.5, 0.9, 1.0, 1.1, 3.0):
        w = world.World({**case["cfg"], "elasticity": s}).write()
        I = impl.Impl(w)
        w.remove()
        got = I.solve(case["biased"])[1]
        w = world.World({**case["cfg"], "elasticity": 1})
        w.params_df = w.params_df.copy()
        for n in world.EDUC_NAMES:
            w.params_df.loc[("const_wage_eq", f"gamma_0_{n}"), "value"] += np.log(s)
        w.write()
        J = impl.Impl(w)
        w.remove()
        out.close(got, J.solve(case["biased"])[1], f"the wages of the solution are not those of the wage equation times the scale {s}",
                  names="state,grid,column")
        out.states += got.shape[0] * got.shape[1]
        out.transitions += got.size
        out.traces += 1
    out.sample = {"value": float(got.ravel()[0])}
