"""Income tax, social security and net household income."""
import itertools

BOUNDS = (
    "complete income lattice (0..12000 a week, every statutory threshold and its neighbours) x partner "
    "incomes x rates/caps x splitting, both implementations"
)
ASSUMPTIONS = ["tax schedule of 2007: marginal rates 15/23.97/42/45 %, solidarity surcharge 5 % of tax"]
TECHNIQUE = "exhaustive enumeration of an income lattice, comparison with the integrated marginal-rate schedule"
LEVEL_NOTE = (
    "Every lattice point, including both sides of every bracket edge, is compared with a tax computed by "
    "integrating the marginal rate; monotonicity, progressivity and splitting rules are checked on all pairs."
)


def cases(tier):
    rates = [(0.215, 63_000), (0.0, 63_000), (0.33, 20_000), (0.215, 0.0)]
    if tier != "quick":
        rates += [(0.1, 5_000), (0.4, 1e6), (0.215, 12_000), (0.5, 30_000)]
    n = 25 if tier == "quick" else 8
    return [
        {"what": "schedule", "step": n / 5},
    ] + [
        {"what": "household", "rate": r, "cap": c, "step": n * 6, "splitting": s}
        for (r, c), s in itertools.product(rates, (True, False))
    ] + [{"what": "spec", "cfg": c} for c in ({}, {"benefits": "wide"}, {"benefits": "small"})]


def lattice(step, edges, top=12_000):
    import numpy as np

    pts = [np.arange(0, top + step, step)]
    for e in edges:
        for d in (0.0, 1e-9, 1e-6, 1e-3, 0.5, 3.0):
            pts.append(np.array([e * (1 - 1e-15), e - d, e + d]))
    pts.append(np.array([0.0, 1e-12, 1e-6, 0.01, 1.0, 5e4, 1e6]))
    out = np.unique(np.concatenate(pts))
    return out[out >= 0]


def run_case(case, out):
    import jax
    import numpy as np
    from mc import impl, ref, world
    from soepy.pre_processing.tax_and_transfers_params import create_tax_parameters
    from soepy.shared import tax_and_transfers as plain
    from soepy.shared import tax_and_transfers_jax as fast

    params = create_tax_parameters()
    edges = np.array([7_664, 12_739, 52_151, 250_000]) / ref.WEEKS_PER_YEAR

    if case["what"] == "schedule":
        y = lattice(case["step"], edges)
        want = ref.inc_tax(y)
        got = np.asarray(jax.vmap(lambda v: fast.calculate_inc_tax(params, v))(y))
        out.close(got, want, "income tax differs from the statutory schedule (vectorised code)")
        got2 = np.array([plain.calculate_inc_tax(params, float(v)) for v in y])
        out.close(got2, want, "income tax differs from the statutory schedule (plain code)")
        for name, tax in (("vectorised", got), ("plain", got2)):
            d = np.diff(tax) / np.diff(y)
            wide = np.diff(y) > 1e-4
            out.check((np.diff(tax) >= -1e-9).all(), f"tax falls with income ({name})")
            out.check((d[wide] <= 0.45 + 1e-6).all(), f"tax jumps: marginal rate above the top rate ({name})")
            out.check((np.diff(d[wide]) >= -1e-6).all(), f"marginal rate falls with income ({name})")
            out.check(np.all(tax[y <= edges[0]] == 0), f"income below the allowance is taxed ({name})")
        neg = np.array([-1.0, -500.0])
        out.close(np.asarray(jax.vmap(lambda v: fast.calculate_inc_tax(params, v))(neg)), 0, "negative income is taxed")
        out.states += 2 * y.size
        out.transitions += 2 * (y.size - 1)
        out.traces += 2
        out.sample = {"income": float(y[y.size // 2]), "tax": float(want[y.size // 2])}
        return

    if case["what"] == "spec":
        w = world.World(case["cfg"]).write()
        I = impl.Impl(w)
        w.remove()
        M = ref.Model(w.spec, w.params_df, w.tables)
        y = lattice(500, edges)
        f, m = np.meshgrid(y, np.concatenate([[0.0], y[::7]]))
        for split in (True, False):
            M.splitting = split
            fn = jax.vmap(lambda a, b: fast.calculate_net_income(
                np.asarray(I.spec.tax_params), np.asarray(I.spec.ssc_deductions), a, b, split))
            out.close(np.asarray(fn(f.ravel(), m.ravel())), M.net(f.ravel(), m.ravel()),
                      "net income under a model specification differs from its annual rules in weekly units")
            out.states += f.size
            out.transitions += f.size
        out.traces += 1
        out.sample = {"net_income_of_600_and_700": float(M.net(600.0, 700.0))}
        return

    rate, cap, split = case["rate"], case["cap"] / ref.WEEKS_PER_YEAR, case["splitting"]
    ded = np.array([rate, cap])
    e2 = np.unique(np.concatenate([edges[:3], edges[:3] / (1 - rate), [cap]]))
    f = lattice(case["step"], e2, 6000)
    m = np.unique(np.concatenate([[0.0, 1e-9], lattice(case["step"] * 4, [cap], 6000), edges]))
    F, Mm = (x.ravel() for x in np.meshgrid(f, m, indexing="ij"))
    want = ref.net_income(F, Mm, rate, cap, split)
    got = np.asarray(jax.vmap(lambda a, b: fast.calculate_net_income(params, ded, a, b, split))(F, Mm))
    out.close(got, want, "net household income is wrong (vectorised code)", names="own,partner flattened")
    sub = slice(None, None, 11)
    got2 = np.array([plain.calculate_net_income(params, ded, float(a), float(b), split) for a, b in zip(F[sub], Mm[sub])])
    out.close(got2, want[sub], "net household income is wrong (plain code)")
    if hasattr(fast, "calculate_ssc_deductions"):
        out.close(np.asarray(jax.vmap(lambda a: fast.calculate_ssc_deductions(ded, a))(f)), ref.ssc(f, rate, cap),
                  "social security contribution is wrong (vectorised code)")
    if hasattr(plain, "calculate_ssc_deductions"):
        out.close(np.array([plain.calculate_ssc_deductions(ded, float(a)) for a in f]), ref.ssc(f, rate, cap),
                  "social security contribution is wrong (plain code)")
    g = got.reshape(len(f), len(m))
    has = m > 0
    out.check((np.diff(g[:, has], axis=0) >= -1e-7).all(), "earning more lowers household net income")
    out.check((np.diff(g[:, ~has], axis=0) >= -1e-7).all(), "earning more lowers a single's net income")
    out.check((g[:, has] <= f[:, None] + m[None, has] + 1e-9).all(), "net income exceeds gross income")
    other = np.asarray(jax.vmap(lambda a, b: fast.calculate_net_income(params, ded, a, b, not split))(F, Mm))
    other = other.reshape(g.shape)
    joint, alone = (g, other) if split else (other, g)
    out.check((joint[:, has] >= alone[:, has] - 1e-7).all(), "joint taxation leaves a couple with less")
    out.check(np.array_equal(joint[:, ~has], alone[:, ~has]), "the couple rule changes a single's net income")
    out.states += g.size
    out.transitions += 3 * g.size
    out.traces += 2
    out.sample = {"own": float(F[-1]), "partner": float(Mm[-1]), "net": float(got[-1])}
