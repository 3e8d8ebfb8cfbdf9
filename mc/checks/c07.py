"""Resources without work: wage replacement, parental benefit, basic income, partner's net earnings."""
from mc import families

BOUNDS = (
    "every discrete state x wage lattice (-6..9 in logs, every cap/floor/threshold neighbourhood) x both regimes "
    "x splitting x benefit schedules; wages per state and per experience grid point"
)
ASSUMPTIONS = ["benefit rules as in the model description: 65 % net-wage proxy, priority by maximum with basic income"]
TECHNIQUE = "exhaustive enumeration of all household states on a wage lattice, compared with stated benefit rules"
LEVEL_NOTE = "All states x lattice points x policy variants are compared with independently written rules; no sampling."

AX = {
    "regime": ["elterngeld", "erziehungsgeld"],
    "splitting": [True, False],
    "benefits": ["normal", "small", "wide"],
    "child_benefits": [43.0, 0.0],
    "partner_shift": [0.0, -1.5, 1.5],
}


def cases(tier):
    out = families.product(AX, {"child_age_max": 12, "types": 1})
    out += families.product({k: v for k, v in AX.items() if k != "partner_shift"},
                            {"child_age_max": 1 if tier == "quick" else 10, "partner_shift": -0.7, "T": 6, "types": 2})
    return [{"cfg": c, "points": 41 if tier == "quick" else 401} for c in out]


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, world
    from soepy.shared.constants_and_indices import HOURS
    from soepy.shared.non_employment import calculate_non_employment_consumption_resources as resources

    w = world.World(case["cfg"]).write()
    I = impl.Impl(w)
    w.remove()
    M = ref.Model(w.spec, w.params_df, w.tables)
    s = np.asarray(I.states)
    t, e, l, k, a, p = s.T
    male = M.male_wage(t, e, p)
    cb = M.child_benefit(a)
    pts = [np.linspace(-6, 9, case["points"])]
    # wages at which a rule switches: caps, floors and income thresholds
    for h in (18, 38):
        for amount, rate in [(M.eg_min, M.eg_rate), (M.eg_max, M.eg_rate), (M.alg2_nokid, M.alg1[0]), (M.alg2_kid, M.alg1[1]),
                             (M.alg2_kid - M.cb, M.eg_rate), (M.erz_thr[0], M.alg1[1]), (M.erz_thr[1], M.alg1[1]),
                             (M.erz_thr[0] - M.cb, M.alg1[1])]:
            if amount > 0 and rate > 0:
                x = np.log(amount / (rate * 0.65 * h))
                pts.append(np.array([x - 1e-7, x + 1e-7]))
    lw = np.unique(np.concatenate(pts))

    def call(log_wage):
        return np.asarray(resources(
            deductions_spec=I.spec.ssc_deductions, income_tax_spec=I.spec.tax_params, model_spec=I.spec,
            states=s, log_wage_systematic=log_wage, male_wage=male, child_benefits=cb,
            tax_splitting=I.spec.tax_splitting, hours=HOURS))

    grid = np.broadcast_to(lw, (len(s), len(lw)))
    got = call(grid.copy())
    col = [x[:, None] for x in (t, e, l, a, p)]
    want = M.resources_out(col[0], col[1], col[2], col[3], col[4], grid)
    if not out.close(got, want, "resources without work are wrong", names="state,wage point"):
        i = out.failures[-1]["detail"]["index"]
        out.failures[-1]["detail"].update(state=s[i[0]].tolist(), log_wage=float(lw[i[1]]))
    for j in (0, len(lw) // 2, len(lw) - 1):
        one = call(np.full(len(s), lw[j]))
        out.close(one, want[:, j], "resources differ when wages are given per woman instead of per grid point", names="state")
    single = (p == 0)
    floor = np.where(a == -1, M.alg2_nokid, M.alg2_kid)
    out.check((got[single] >= floor[single, None] - 1e-9).all(), "a single woman falls below basic income")
    out.states += got.size
    out.transitions += got.size
    out.traces += 1 + 3
    out.sample = {"state": s[0].tolist(), "log_wage": float(lw[len(lw) // 2]), "resources": float(got[0, len(lw) // 2])}
