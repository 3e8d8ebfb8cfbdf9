"""More generous conditions never make a woman worse off; more experience never hurts."""
import itertools

from mc import families, world

BOUNDS = (
    "every policy amount with a known direction, every wage and preference parameter and the discount factor, small and large changes, in "
    "every world of cases() (both regimes, both signs of the utility exponent) x belief modes: all states and grid points"
)
ASSUMPTIONS = [
    "income-tested Erziehungsgeld can be lost by earning more, so in that regime only test-neutral amounts are judged",
    "part-time credit of at most one year per year",
]
TECHNIQUE = "exhaustive enumeration of one-parameter changes, value order compared on every state"
LEVEL_NOTE = "Metamorphic order relation checked on every state and grid point for every change in the bound; needs no reference values."

TT = "TAXES_TRANSFERS"
UP = ["alg1_replacement_no_child", "alg1_replacement_child", "child_benefits", "regelsatz_single", "housing_single", "regelsatz_child",
      "addition_child_single", "housing_addtion", "elterngeld_replacement", "elterngeld_min", "elterngeld_max"]
UP_ERZ = ["erziehungsgeld", "erziehungsgeld_income_threshold_single", "erziehungsgeld_income_threshold_married"]

WORLDS = [{"regime": r, "mu": m, "child_age_max": a, "splitting": s, "types": 2, "grid": g, "T": T, "benefits": b, "integration": i,
           "partner_shift": p, "gamma_p": gp}
          for (r, m, a, s, g, T, b, i, p, gp) in [
              ("elterngeld", -0.5, 6, True, "uniform3", 3, "normal", "quadrature", 0.0, "generic"),
              ("elterngeld", 0.4, 3, False, "uneven4", 4, "small", "monte_carlo", -1.5, "half"),
              ("elterngeld", -1.3, 1, True, "uniform5", 3, "wide", "quadrature", 1.5, "zero"),
              ("erziehungsgeld", -0.5, 6, True, "uniform3", 3, "normal", "quadrature", 0.0, "half"),
              ("erziehungsgeld", 0.4, 2, False, "uneven4", 4, "small", "monte_carlo", -1.5, "generic"),
              ("erziehungsgeld", -0.5, 1, True, "uniform3", 3, "wide", "quadrature", -0.7, "generic"),
          ]]


def changes(cfg):
    """(what, direction): direction +1 raises, -1 lowers values; the sign of utility decides for tastes."""
    eg = cfg["regime"] == "elterngeld"
    sign = 1 if cfg["mu"] > 0 else -1
    out = []
    for k in UP if eg else UP_ERZ:
        out += [({"spec": [TT, k], "factor": f}, 1 if f > 1 else -1) for f in (1.2, 0.6, 3.0)]
    out += [({"spec": [TT, "ssc_rate"], "factor": f}, -1 if f > 1 else 1) for f in (1.3, 0.5)]
    out += [({"spec": [TT, "ssc_cap"], "factor": f}, -1 if f > 1 else 1) for f in (1.5, 0.3)]
    for age, c in itertools.product(("under_3", "3_to_6"), (0, 1)):
        out += [({"care": [age, c], "factor": f}, -1 if f > 1 else 1) for f in (1.4, 0.0)]
    if not cfg["splitting"]:
        out.append(({"set": [TT, "tax_splitting", True]}, 1))
    else:
        out.append(({"set": [TT, "tax_splitting", False]}, -1))
    if eg:
        out += [({"spec": ["EXOG_PROC", "partner_cf_const"], "factor": f}, 1 if f > 1 else -1) for f in (1.1, 0.8)]
        out += [({"spec": ["SIMULATION", "elasticity_scale"], "factor": f}, 1 if f > 1 else -1) for f in (1.3, 0.7)]
        for n in ("low", "middle", "high"):
            out += [({"par": [("const_wage_eq", f"gamma_0_{n}")], "add": a}, 1 if a > 0 else -1) for a in (0.2, -0.3)]
            out += [({"par": [("exp_return", f"gamma_1_{n}")], "add": a}, 1 if a > 0 else -1) for a in (0.2, -0.1)]
            out.append(({"par": [("exp_increase_p", f"gamma_p_{n}")], "add": 0.1, "unbiased": True}, 1))
        out.append(({"par": [("exp_increase_p_mom", "gamma_p_mom")], "add": 0.1, "unbiased": True}, 1))
    for w in "fp":
        for b in ("0_2", "3_5", "6_10"):
            out.append(({"par": [("disutil_work", f"child_{b}_{w}")], "add": 0.3}, sign))
        for kids in ("no", "yes"):
            out.append(({"par": [("disutil_work", f"{kids}_kids_{w}_educ_{n}") for n in ("low", "middle", "high")], "add": -0.2}, -sign))
        out.append(({"par": [("hetrg_unobs", f"theta_{w}1")], "add": 0.25}, sign))
    out += [({"par": [("discount", "delta")], "add": a}, sign * (1 if a > 0 else -1)) for a in (0.05, -0.2)]
    return out


def cases(tier):
    ws = WORLDS
    if tier != "quick":
        ax = {"mu": [0.4, -1.3], "child_age_max": [1, 6], "splitting": [False], "benefits": ["small", "wide"], "partner_shift": [-1.5, 1.5],
              "grid": ["uneven4", "uniform2"], "gamma_p": ["half", "zero"], "integration": ["monte_carlo"], "wage_shift": [-1.0, 0.8],
              "sigma": [0.0, 1.3], "T": [2, 5]}
        ws = ws + [{**world.DEFAULT, **c} for r in ("elterngeld", "erziehungsgeld") for c in world.covering(2, ax, {"regime": r})]
    out = []
    for i, c in enumerate(ws):
        ch = changes({**world.DEFAULT, **c})
        for j in range(0, len(ch), 14):
            out.append({"cfg": world.describe(c), "biased": (i + j // 14) % 2 == 0, "changes": ch[j: j + 14]})
    return out


def run_case(case, out):
    import numpy as np
    from mc import impl

    cfg = {"gamma_mom": 0.1, **case["cfg"]}
    base = []

    def go(what=None):
        w = world.World(cfg)
        if what and "par" in what:
            w.params_df = w.params_df.copy()
            for k in what["par"]:
                w.params_df.loc[tuple(k), "value"] += what["add"]
            I = base[0]
            return I.tensor(I.solve(case["biased"], params=impl.read_model_params_init(w.params_df)[1])[1])[..., 3]
        if what and "care" in what:
            w.spec[TT]["child_care_costs"][what["care"][0]][what["care"][1]] *= what["factor"]
        elif what and "set" in what:
            g, k, v = what["set"]
            w.spec[g][k] = v
        elif what:
            g, k = what["spec"]
            w.spec[g][k] *= what["factor"]
        w.write()
        I = impl.Impl(w)
        w.remove()
        base.append(I)
        return I.tensor(I.solve(case["biased"])[1])[..., 3]

    V = go()
    names = "period,educ,last choice,type,age + 1,partner,grid"
    if {**world.DEFAULT, **cfg}["regime"] == "elterngeld":
        order(out, V[..., :-1], V[..., 1:], "more experience makes a woman worse off", names)
    for what, sign in case["changes"]:
        if what.get("unbiased") and case["biased"]:
            continue
        W = go(what)
        lo, hi = (V, W) if sign > 0 else (W, V)
        label = " ".join(str(x) for x in (what.get("par") or what.get("care") or what.get("set") or what.get("spec")))
        order(out, lo, hi, f"{'raising' if what.get('factor', 1 + what.get('add', 1)) > 1 else 'lowering'} {label} moves a value the wrong way", names)
        out.count("changes")
        out.count("changes_with_effect", bool((np.abs(V - W) > 1e-12).any()))
        out.traces += 1
    out.sample = {"changes": [c[0] for c in case["changes"][:3]]}


def order(out, lo, hi, message, names):
    import numpy as np

    bad = ~(hi >= lo - 1e-10 * (1 + np.abs(lo)))
    out.states += lo.size
    out.transitions += lo.size
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        out.fail(message, index=list(i), axes=names, lower=float(lo[i]), higher=float(hi[i]), states=int(bad.sum()))
