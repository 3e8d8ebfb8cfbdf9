"""Groups are separate: parameters of one education level or type never affect another."""
import itertools

from mc import families, world

BOUNDS = (
    "every group-specific parameter and every column of every probability table, up and down, in every generic world of "
    "cases() x both belief modes; all states compared; simulated women outside the group compared row by row (entry tables: at entry)"
)
ASSUMPTIONS = ["one simulation seed: common random numbers"]
TECHNIQUE = "exhaustive influence matrix: each input perturbed alone, every state's value and every woman compared"
LEVEL_NOTE = "Each group-specific input is perturbed alone; every state and every simulated row outside the group must be unchanged."

WORLDS = [
    {},
    {"regime": "erziehungsgeld", "types": 3, "grid": "uneven4"},
    {"T": 4, "educ_years": [0, 1, 3], "types": 4, "child_age_max": 7, "integration": "monte_carlo"},
    {"T": 5, "educ_years": [0, 0, 1], "splitting": False, "last_birth": 9, "types": 2, "elasticity": 1.4},
    {"T": 4, "gamma_p": "above", "types": 2, "educ_years": [0, 2, 1]},
    {"T": 2, "educ_years": [0, 0, 0], "types": 2, "child_age_max": 4, "child_init_max": 4, "init_exp_max": 3, "grid": "uniform3"},
    {"T": 3, "types": 12, "child_age_max": 1, "grid": "uniform2"},
]


def inputs(cfg):
    out = []
    n = ["low", "middle", "high"]
    E = len({**world.DEFAULT, **cfg}["educ_years"])
    for e in range(E):
        for cat, pat in (("const_wage_eq", "gamma_0_{}"), ("exp_return", "gamma_1_{}"), ("exp_increase_p", "gamma_p_{}"),
                         ("disutil_work", "no_kids_f_educ_{}"), ("disutil_work", "yes_kids_f_educ_{}"),
                         ("disutil_work", "no_kids_p_educ_{}"), ("disutil_work", "yes_kids_p_educ_{}")):
            out.append({"par": [cat, pat.format(n[e])], "educ": e})
        for tab in ("child", "arrival", "separation"):
            out.append({"table": tab, "educ": e})
        for tab in ("child_age", "partner", "pt", "ft"):
            out.append({"table": tab, "educ": e, "entry": True})
    K = {**world.DEFAULT, **cfg}["types"]
    for k in range(1, K):
        for w in "pf":
            out.append({"par": ["hetrg_unobs", f"theta_{w}{k}"], "type": k})
    return out


def cases(tier):
    ws = WORLDS if tier == "quick" else families.dedupe(WORLDS + world.covering(2))
    out = []
    for i, c in enumerate(ws):
        ins = inputs(c)
        for j in range(0, len(ins), 9):
            for b in (True, False) if tier != "quick" else ((i + j // 9) % 2 == 0,):
                out.append({"cfg": c, "biased": b, "inputs": ins[j: j + 9]})
    return out


def perturb(w, what, step):
    import numpy as np

    if "par" in what:
        w.params_df = w.params_df.copy()
        w.params_df.loc[tuple(what["par"]), "value"] += step
    else:
        t = w.tables[what["table"]].copy()
        rows = t.index.get_level_values("educ_level") == what["educ"]
        t.iloc[rows, 0] = np.clip(t.iloc[rows, 0] * (1 - step), 0, 1)
        w.tables[what["table"]] = t


def run_case(case, out):
    import numpy as np
    from mc import impl, influence, ref, simx

    def go(what=None, step=0.0):
        w = world.World({**case["cfg"], "agents": 150})
        if what:
            perturb(w, what, step)
        if what and "par" in what:
            J, params = base[0], impl.read_model_params_init(w.params_df)[1]
            ncu, em = J.solve(case["biased"], params=params)
            return M, J.tensor(em), simx.Panel(J.simulate(ncu, em, params=params), M.T), J.tensor(ncu)
        w.write()
        I = impl.Impl(w)
        w.remove()
        base.append(I)
        ncu, em = I.solve(case["biased"])
        return M, I.tensor(em), simx.Panel(I.simulate(ncu, em), M.T), I.tensor(ncu)

    base = []
    w0 = world.World(case["cfg"])
    M = ref.Model(w0.spec, w0.params_df, w0.tables)
    _, V, P, N = go()
    grid = influence.grids(M)
    changed = 0
    educ, typ = P.at_entry("Education_Level"), P.at_entry("Type")
    for what, step in itertools.product(case["inputs"], (0.11, -0.07)):
        name = what["par"][-1] if "par" in what else f"the {what['table']} table of education level {what['educ']}"
        _, V2, P2, N2 = go(what, step)
        direct = grid[1] == what["educ"] if "educ" in what else grid[3] == what["type"]
        influence.judge(out, M, V, V2, direct, name)
        d = influence.changed(N[..., None, :], N2[..., None, :]).any(-1) & ~direct
        out.check(not d.any(), f"{name} changes the taste for work of another group", cells=int(d.sum()))
        if "entry" in what:
            # only the entry situations of that level are drawn from this table
            out.check(np.array_equal(V, V2), f"{name} changes values")
            other = educ != what["educ"]
            if out.check(np.array_equal(educ, P2.at_entry("Education_Level")), f"{name} changes who has which education"):
                for c in simx.ENTRY:
                    out.close(P2.at_entry(c)[other], P.at_entry(c)[other], f"{name} changes {c} at entry of a woman of another level")
                changed += int((np.stack([P2.at_entry(c) != P.at_entry(c) for c in simx.ENTRY])).any(0).sum())
        if "par" in what:
            other = educ != what["educ"] if "educ" in what else typ != what["type"]
            same = np.array_equal(P.ids, P2.ids) and np.array_equal(P.present, P2.present)
            if out.check(same, f"{name} changes the population"):
                for c in P.columns:
                    out.close(P2[c][other], P[c][other], f"{name} changes {c} of a woman of another group", tol=1e-9)
        out.traces += 1
    out.count("entry_situations_changed", changed)
    out.sample = {"inputs": case["inputs"][:2]}
