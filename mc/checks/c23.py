"""Policies and tastes matter only to those who can ever be concerned by them."""
import itertools

from mc import families, world

BOUNDS = (
    "every policy and preference parameter, up and down, in every world of cases() (both regimes, certain and impossible births and "
    "partners) x both belief modes; all states compared against the set that can reach an eligible state"
)
ASSUMPTIONS = ["eligibility rules as documented for each transfer; a birth counts as possible if either neighbouring row allows it"]
TECHNIQUE = "exhaustive influence matrix with explicit-state backward reachability of eligible states as the allowed set"
LEVEL_NOTE = "Each parameter is perturbed alone; every state from which no eligible state is reachable must keep its value exactly."

WORLDS = [
    {"T": 4, "types": 1, "grid": "uniform3", "child_age_max": 7},
    {"T": 4, "types": 1, "grid": "uniform3", "child_age_max": 7, "regime": "erziehungsgeld"},
    {"T": 3, "types": 1, "grid": "uniform3", "child_age_max": 12, "prob": "zero"},
    {"T": 3, "types": 1, "grid": "uniform3", "child_age_max": 12, "prob": "zero", "regime": "erziehungsgeld", "benefits": "wide"},
    {"T": 4, "types": 1, "grid": "uniform2", "child_age_max": 3, "prob": "one", "last_birth": 1},
    {"T": 5, "types": 1, "grid": "uniform2", "child_age_max": 1, "last_birth": 0, "regime": "erziehungsgeld", "splitting": False},
]


def inputs():
    out = [{"par": ["exp_increase_p_mom", "gamma_p_mom"]}]
    for w in "fp":
        for b in ("0_2", "3_5", "6_10"):
            out.append({"par": ["disutil_work", f"child_{b}_{w}"]})
        for e, n in enumerate(["low", "middle", "high"]):
            for kids in ("no", "yes"):
                out.append({"par": ["disutil_work", f"{kids}_kids_{w}_educ_{n}"], "educ": e})
    for k in ("alg1_replacement_no_child", "alg1_replacement_child", "child_benefits", "regelsatz_single", "housing_single",
              "regelsatz_child", "addition_child_single", "housing_addtion", "elterngeld_replacement", "elterngeld_min",
              "elterngeld_max", "erziehungsgeld", "erziehungsgeld_income_threshold_single",
              "erziehungsgeld_income_threshold_married", "tax_splitting"):
        out.append({"spec": ["TAXES_TRANSFERS", k]})
    for age, c in itertools.product(("under_3", "3_to_6"), (0, 1)):
        out.append({"care": [age, c]})
    for k in ("partner_cf_const", "partner_cf_age", "partner_cf_age_sq", "partner_cf_educ"):
        out.append({"spec": ["EXOG_PROC", k]})
    return out


def cases(tier):
    ws = WORLDS if tier == "quick" else families.dedupe(
        WORLDS + [{**c, "types": 1} for c in world.covering(2, {k: v for k, v in world.AXES.items() if k != "types"})])
    ins = inputs()
    out = []
    for i, c in enumerate(ws):
        for j in range(0, len(ins), 11):
            for b in (True, False) if tier != "quick" else ((i + j // 11) % 2 == 0,):
                out.append({"cfg": c, "biased": b, "inputs": ins[j: j + 11]})
    return out


def eligible(what, M, grid, biased):
    import numpy as np

    t, e, l, k, a, p = grid
    no = np.zeros(t.shape, bool)
    if "care" in what:
        return (a >= 0) & (a <= 2) if what["care"][0] == "under_3" else (a >= 3) & (a <= 5)
    if "par" in what:
        n = what["par"][1]
        if n == "gamma_p_mom":
            return no if biased else (a >= 0) & (a <= 2)
        if n.startswith("child_"):
            lo, hi = {"0_2": (0, 2), "3_5": (3, 5), "6_10": (6, 10)}[n[6:-2]]
            return (a >= lo) & (a <= hi)
        return ((a >= 0) if n.startswith("yes") else (a < 0)) & (e == what["educ"])
    n = what["spec"][1]
    eg = M.regime == "elterngeld"
    return {
        "alg1_replacement_no_child": (a < 0) & (l > 0),
        "alg1_replacement_child": (a >= 0) & (l > 0) & ((a != 0) | (not eg)),
        "child_benefits": a >= 0,
        "regelsatz_single": p == 0,
        "housing_single": p == 0,
        "regelsatz_child": (p == 0) & (a >= 0),
        "addition_child_single": (p == 0) & (a >= 0),
        "housing_addtion": (p == 0) & (a >= 0),
        "elterngeld_replacement": (a == 0) & (l > 0) & eg,
        "elterngeld_min": (a == 0) & (l > 0) & eg,
        "elterngeld_max": (a == 0) & (l > 0) & eg,
        "erziehungsgeld": (a >= 0) & (a <= 1) & (not eg),
        "erziehungsgeld_income_threshold_single": (a >= 0) & (a <= 1) & (p == 0) & (not eg),
        "erziehungsgeld_income_threshold_married": (a >= 0) & (a <= 1) & (p == 1) & (not eg),
        "tax_splitting": p == 1,
        "partner_cf_const": p == 1,
        "partner_cf_age": (p == 1) & (t > 0),
        "partner_cf_age_sq": (p == 1) & (t > 0),
        "partner_cf_educ": (p == 1) & (e > 0),
    }[n]


def run_case(case, out):
    from mc import impl, influence, ref

    def go(what=None, factor=1.0):
        w = world.World(case["cfg"])
        if what and "par" in what:
            w.params_df = w.params_df.copy()
            w.params_df.loc[tuple(what["par"]), "value"] += factor - 1
        elif what and "care" in what:
            w.spec["TAXES_TRANSFERS"]["child_care_costs"][what["care"][0]][what["care"][1]] *= factor
        elif what:
            g, n = what["spec"]
            w.spec[g][n] = (not w.spec[g][n]) if n == "tax_splitting" else w.spec[g][n] * factor
        if what and "par" in what:
            return base[0].tensor(base[0].solve(case["biased"], params=impl.read_model_params_init(w.params_df)[1])[1])
        w.write()
        I = impl.Impl(w)
        w.remove()
        base.append(I)
        return I.tensor(I.solve(case["biased"])[1])

    base = []
    w0 = world.World(case["cfg"])
    M = ref.Model(w0.spec, w0.params_df, w0.tables)
    V = go()
    grid = influence.grids(M)
    for what in case["inputs"]:
        if "educ" in what and what["educ"] >= M.E:
            continue
        name = (what.get("par") or what.get("care") or what.get("spec"))
        for f in (1.23, 0.71):
            if what.get("spec", [0, 0])[1] == "tax_splitting" and f < 1:
                continue
            n = influence.judge(out, M, V, go(what, f), eligible(what, M, grid, case["biased"]), " ".join(map(str, name)),
                                motion="gamma_p_mom" in name)
            out.count("perturbations_with_effect", n > 0)
            out.count("perturbations")
            out.traces += 1
    out.sample = {"inputs": case["inputs"][:2]}
