"""Experience: years worked are neither lost nor invented, and the stock stays a share."""
import itertools

BOUNDS = (
    "function level: all (period 0..40, initial maximum 0..4, increment, choice, stock) lattice points; "
    "histories: every choice sequence x birth sequence x entry situation up to depth T; long careers"
)
ASSUMPTIONS = [
    "a part-time year earns the education- and motherhood-specific share of a full-time year",
    "scale of the stock: initial maximum plus elapsed periods",
]
TECHNIQUE = "exhaustive enumeration of work histories on the real simulation, replayed on the years-worked model"
LEVEL_NOTE = (
    "All choice and birth sequences up to the depth are forced through the real simulation; every "
    "experience value is compared with the years credited so far. Known deviations are reported only if "
    "the observed history equals the recorded defect exactly."
)


def cases(tier):
    out = [{"what": "law", "init": i} for i in range(0, 5)]
    T = 3 if tier == "quick" else 4
    for gp, gm, init in itertools.product(["generic", "half", "one", "zero"], [0.0, 0.35, 1.1], [0, 1, 3]):
        if tier == "quick" and (gp, init) not in (("generic", 1), ("half", 0), ("one", 1), ("generic", 3), ("zero", 0)):
            continue
        if gp == "one" and gm == 0.35:
            continue
        n_births = 2 ** (T - 1)
        for b in range(n_births):
            out.append({"what": "histories", "T": T, "births": b,
                        "cfg": {"gamma_p": gp, "gamma_mom": gm, "init_exp_max": init,
                                "educ_years": [0, 0, 0] if (b % 2 or init == 0) else [0, 1, 2]}})
    for cfg in ({}, {"educ_years": [0, 2, 4], "init_exp_max": 4}, {"gamma_mom": 0.0, "gamma_p": "half"}):
        out.append({"what": "career", "cfg": {"T": 40, "types": 12, "last_birth": 24, "child_age_max": 10,
                                              "educ_years": [0, 0, 0], **cfg}})
    for T in (140,) if tier == "quick" else (140, 300):
        out.append({"what": "career", "cfg": {"T": T, "types": 12, "last_birth": 24, "child_age_max": 10,
                                              "educ_years": [0, 0, 0]}})
    return out


def run_case(case, out):
    if case["what"] == "law":
        return law(case, out)
    import numpy as np
    from mc import impl, ref, simx, world

    if case["what"] == "histories":
        T = case["T"]
        seqs = simx.sequences(T)
        births = [0] + [(case["births"] >> i) & 1 for i in range(T - 1)]
        cfg = {"types": len(seqs), "T": T, "last_birth": T, "shares": "equal", "grid": "uniform2", **case["cfg"]}
    else:
        cfg = {"shares": "equal", "grid": "uniform2", **case["cfg"]}
        T = cfg["T"]
        rng = [(7 * k + 3) for k in range(12)]
        seqs = [tuple((rng[k] * (t + 1) ** 2 // (k + 1) + t // (k + 2)) % 3 for t in range(T)) for k in range(10)]
        seqs += [(2,) * T, (1,) * T]
        births = [1 if t % 9 == 4 and t < 24 else 0 for t in range(T)]
    w = world.World(cfg).write()
    I = impl.Impl(w)
    M = ref.Model(w.spec, w.params_df, w.tables)
    w.remove()
    ncu, em = simx.forced_values(I, simx.by_type(seqs))
    df, P, n = simx.run_covering(I, ncu, em, simx.nature(I, births=births))
    histories(M, P, out)
    kk = P["Type"]
    want = np.array(seqs)[np.nan_to_num(kk).astype(int), np.arange(T)[None, :]]
    out.check(np.array_equal(P["Choice"][P.present], want[P.present]), "a forced optimal choice was not taken")
    out.states += int(P.present.sum())
    out.transitions += int((P.present[:, 1:] & P.present[:, :-1]).sum())
    out.traces += len(P.ids)
    out.count("distinct_histories", len({tuple(r) for r in np.column_stack(
        [P.at_entry(c) for c in simx.ENTRY]).tolist()}))
    out.sample = {"choices": seqs[-1][:6], "stock": P["Experience_Stock"][-1][:6].round(4).tolist()}


def histories(M, P, out):
    """Every observed stock against the years earned; known defects only if reproduced exactly."""
    import numpy as np

    n, T = P.present.shape
    stock, pt, ft = P["Experience_Stock"], P["Experience_Part_Time"], P["Experience_Full_Time"]
    ch, age, educ = P["Choice"], P["Age_Youngest_Child"], P.at_entry("Education_Level").astype(int)
    ar = np.arange(n)
    ent = P.entry
    pt0, ft0 = pt[ar, ent], ft[ar, ent]
    inc_all = np.full((n, T), np.nan)
    for t in range(T):
        inc_all[:, t] = M.inc(educ, np.nan_to_num(age[:, t], nan=-1).astype(int), False)
    years0 = pt0 * inc_all[ar, ent] + ft0
    lagged = P["Lagged_Choice"][ar, ent]

    # work counters, exactly
    for name, code, col in (("part-time", 1, pt), ("full-time", 2, ft)):
        want = np.full((n, T), np.nan)
        cur = (pt0 if code == 1 else ft0).copy()
        for t in range(T):
            on = P.present[:, t]
            want[on, t] = cur[on]
            cur = cur + np.where(on, ch[:, t] == code, 0)
        out.close(col, want, f"{name} years differ from the choices made", names="agent,period")
    want = np.where(np.abs(years0 - np.trunc(years0)) > 1e-8, 1, np.where(years0 > 1, 2, 0))
    out.close(lagged, want, "initial work status does not follow from initial experience")

    # what the law of motion says
    ideal = np.full((n, T), np.nan)
    defect = np.full((n, T), np.nan)
    cap_inc = np.full((n, T), np.nan)
    years = np.minimum(years0, M.max_years(ent, inc_all[ar, ent]))
    x = np.full(n, np.nan)
    first_scale = float(M.init_exp_max) if M.init_exp_max > 0 else 1.0
    for t in range(T):
        on = P.present[:, t]
        inc = inc_all[:, t]
        cap = M.max_years(t, inc)
        x = np.where(on & (ent == t), years0 / first_scale, x)
        ideal[on, t] = (years / np.where(cap > 0, cap, 1))[on]
        defect[on, t] = x[on]
        cap_inc[on, t] = inc[on]
        credit = np.where(ch[:, t] == 1, inc, np.where(ch[:, t] == 2, 1.0, 0.0))
        years = np.where(on, years + credit, years)
        x = np.where(on, M.next_stock(x, t, inc, ch[:, t]), x)
    tol = 1e-9
    bad_ideal = P.present & ~(np.abs(stock - ideal) <= tol)
    bad_range = P.present & ~((stock >= -tol) & (stock <= 1 + tol))
    bad_law = P.present & ~(np.abs(stock - defect) <= tol)
    late = (ent > 0)[:, None] & (years0 > 0)[:, None] & np.ones((1, T), bool)
    over = (years0 > first_scale + 1e-12)[:, None] & np.ones((1, T), bool)
    steep = np.broadcast_to((inc_all > 1 + 1e-12).any(axis=1)[:, None], (n, T))

    def report(mask, key, what):
        if mask.any():
            i, t = (int(v) for v in np.argwhere(mask)[0])
            out.fail(what, key=key, agent=int(P.ids[i]), period=t, stock=float(stock[i, t]),
                     expected=float(ideal[i, t]), initial_years=float(years0[i]), entry=int(ent[i]),
                     choices=ch[i].tolist(), cases=int(mask.sum()))

    any_bad = bad_ideal | bad_range
    report(bad_law, None, "experience deviates from the law of motion")
    expl = any_bad & ~bad_law
    report(expl & ~late & ~over & ~steep, None, "experience years are lost or invented")
    report(expl & late, "late-entry-scale", "experience of a late entrant is inflated")
    report(expl & over & ~late, "initial-stock-above-one", "initial experience exceeds the scale")
    report(expl & steep & ~late & ~over, "increment-above-one", "experience is rescaled when the increment changes")


def law(case, out):
    from mc import impl  # noqa: F401  (64-bit arithmetic)
    import numpy as np
    import jax.numpy as jnp
    from mc import ref
    from soepy.shared import experience_stock as es

    class M(ref.Model):
        def __init__(self):
            self.init_exp_max = case["init"]

    M = M()
    init = case["init"]
    x = np.linspace(0, 1, 25)
    for t in range(0, 41):
        for inc in (0.0, 0.15, 0.4, 0.5, 0.99, 1.0, 1.3, 2.0):
            cap = init + max(t, t * inc)
            kw = {"period": t, "init_exp_max": init, "pt_increment": inc}
            if hasattr(es, "max_exp_years"):
                out.close(es.max_exp_years(**kw), cap, "largest possible experience is wrong")
            years = np.asarray(es.stock_to_exp_years(stock=x, **kw))
            out.close(years, x * cap, "stock to years")
            if cap > 0:
                out.close(es.exp_years_to_stock(exp_years=years, **kw), x, "years to stock does not invert stock to years")
            else:
                out.close(es.exp_years_to_stock(exp_years=np.zeros(3), **kw), 0.0, "no experience is not stock zero")
            for c in (0, 1, 2):
                nxt = np.asarray(es.next_stock(stock=x, choice=c, **kw))
                credit = (0.0, inc, 1.0)[c]
                cap1 = init + max(t + 1, (t + 1) * inc)
                out.close(nxt * cap1, x * cap + credit, f"next period's years are not this period's plus the credit ({c})")
                out.check(((nxt >= 0) & (nxt <= 1)).all(), "stock leaves the unit interval")
                many = np.asarray(es.next_stock(stock=jnp.asarray(x), period=t, init_exp_max=init,
                                                pt_increment=jnp.full(x.shape, inc), choice=jnp.full(x.shape, c)))
                out.close(many, nxt, "array and scalar evaluation differ")
                out.transitions += x.size
            out.states += x.size
    out.traces += 1
    out.sample = {"init": init, "stock": 0.5, "period": 3,
                  "next_after_full_time": float(es.next_stock(stock=0.5, period=3, init_exp_max=init, pt_increment=0.4, choice=2))}
