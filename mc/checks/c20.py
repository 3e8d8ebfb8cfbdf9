"""Time runs forwards: what lies ahead of a period's decisions is all they depend on, and the past never changes."""
import itertools

from mc import families, world

BOUNDS = (
    "every single entry (period x education) of every probability table, up and down, in every world of cases(): all state values; "
    "every entry under fixed behaviour: all simulated rows; horizons 1..T without discount factor: all states; "
    "inputs of the simulation only: all states"
)
ASSUMPTIONS = ["one simulation seed: common random numbers"]
TECHNIQUE = "exhaustive influence matrix over table entries and horizons, every state's value and every simulated row compared"
LEVEL_NOTE = "Each table entry is perturbed alone; every value after it and every simulated row before it must be unchanged."

WORLDS = [
    {"T": 4, "types": 1, "last_birth": 9, "grid": "uniform3"},
    {"T": 4, "types": 1, "last_birth": 1, "educ_years": [0, 1, 2], "regime": "erziehungsgeld", "grid": "uneven3"},
    {"T": 5, "types": 2, "last_birth": 2, "educ_years": [0, 1], "child_age_max": 1, "grid": "uniform2"},
    {"T": 3, "types": 1, "last_birth": 9, "educ_years": [0], "prob": "generic", "integration": "monte_carlo"},
]


def cases(tier):
    out = []
    ws = WORLDS if tier == "quick" else families.dedupe(
        WORLDS + world.covering(2, {k: v for k, v in world.AXES.items() if k != "T"}, {"T": 4, "last_birth": 9})
        + [{"T": 7, "last_birth": 9, "types": 1, "grid": "uniform2"}])
    for i, c in enumerate(ws):
        for tab in ("child", "arrival", "separation"):
            out.append({"what": "entries", "cfg": c, "table": tab, "biased": i % 2 == 0})
    for i, c in enumerate(world.covering(2 if tier != "quick" else 1, {k: v for k, v in world.AXES.items() if k not in ("T", "delta", "last_birth")})):
        out.append({"what": "horizon", "cfg": {**c, "delta": 0.0, "last_birth": 9}, "biased": i % 2 == 0})
    small = {"types": 1, "child_age_max": 1, "grid": "uniform2", "educ_years": [0, 0, 0], "delta": 0.0, "last_birth": 9}
    for m in ("quadrature", "monte_carlo"):
        out.append({"what": "horizon", "cfg": {**small, "integration": m}, "biased": m == "quadrature",
                    "horizons": [1, 8, 10, 19, 20, 33, 64] if tier == "quick" else [1, 8, 10, 19, 20, 33, 64, 100, 128, 129]})
    for i, c in enumerate([{}, {"regime": "erziehungsgeld", "T": 4}, {"integration": "monte_carlo", "types": 3}]):
        out.append({"what": "simulation inputs", "cfg": c, "biased": i % 2 == 0})
    return out


def build(cfg, change=None):
    from mc import impl, ref

    w = world.World({"agents": 200, **cfg})
    if change:
        change(w)
    w.write()
    I = impl.Impl(w)
    M = ref.Model(w.spec, w.params_df, w.tables)
    w.remove()
    return I, M


def run_case(case, out):
    {"entries": entries, "horizon": horizon, "simulation inputs": sim_inputs}[case["what"]](case, out)


def entries(case, out):
    import numpy as np
    from mc import influence, simx

    I, M = build(case["cfg"])
    ncu, em = I.solve(case["biased"])
    V = I.tensor(em)
    grid = influence.grids(M)
    mixed = simx.forced_values(I, lambda s: (s[:, 0] + s[:, 3] + s[:, 1]) % 3)
    P = simx.Panel(I.simulate(*mixed), M.T)
    hit = 0
    for r, e, new in itertools.product(range(M.T), range(M.E), (0.03, 0.97)):
        def change(w):
            w.tables[case["table"]] = w.tables[case["table"]].copy()
            w.tables[case["table"]].loc[(r, e), :] = new

        I2, M2 = build(case["cfg"], change)
        V2 = I2.tensor(I2.solve(case["biased"])[1])
        # an event between t and t+1: a change in row r can first matter for decisions in period r
        # (and never in the last period, which has no tomorrow)
        direct = (grid[1] == e) & (grid[0] <= min(r, M.T - 2))
        d = influence.changed(V, V2) & ~direct[..., None]
        hit += int(influence.changed(V, V2).sum())
        if d.any():
            out.fail(f"the {case['table']} table of period {r} changes values it has no bearing on", row=r, education=e,
                     first=[int(x) for x in np.argwhere(d)[0]], cells=int(d.sum()))
        out.count("cells_required_equal", int((~direct).sum()) * 4)
        P2 = simx.Panel(I2.simulate(*mixed), M.T)
        last = r if case["table"] == "child" else r + 1  # rows before this period are history
        if out.check(np.array_equal(P.ids, P2.ids) and np.array_equal(P.present, P2.present), "nature changes the population"):
            for c in P.columns:
                out.close(P2[c][:, :last], P[c][:, :last], f"the {case['table']} table of period {r} changes {c} in the past", names="agent,period")
        out.states += V.size // 4
        out.transitions += int(P.present[:, :last].sum())
        out.traces += 1
    out.check(hit > 0, f"the {case['table']} table changes no value at all")
    out.sample = {"table": case["table"], "cells_changed": hit}


def horizon(case, out):
    """Women who do not value tomorrow behave alike whatever the horizon."""
    from mc import simx

    horizons = case.get("horizons", [1, 2, 3, 4, 5])
    longest = horizons[-1]
    I, M = build({**case["cfg"], "T": longest})
    ncu, em = I.solve(case["biased"])
    V = I.tensor(em)
    P = simx.Panel(I.simulate(ncu, em), longest)
    for T in horizons[:-1]:
        J, K = build({**case["cfg"], "T": T, "educ_years": M.educ_years})
        ncu2, em2 = J.solve(case["biased"])
        V2 = J.tensor(em2)
        out.close(V2[..., 3], V[:T, ..., 3], "with no weight on the future values still depend on the horizon",
                  names="period,educ,lagged,type,age,partner,grid")
        out.states += V2[..., 3].size
        out.transitions += V2.size
        out.traces += 1
    for c in "NPF":
        gap = P[f"Value_Function_{c}"] - P[f"Flow_Utility_{c}"]
        out.close(gap[P.present], 0.0, "with no weight on the future the value is not the flow utility")
    out.sample = {"horizons": horizons}


def sim_inputs(case, out):
    """Who is simulated has no bearing on the solution."""
    import numpy as np

    I, M = build(case["cfg"])
    base = I.solve(case["biased"])

    def tab(name):
        def f(w):
            t = w.tables[name].copy()
            t.iloc[:, 0] = np.roll(t.iloc[:, 0].to_numpy(), 1)
            w.tables[name] = t
        return f

    def share(w):
        w.params_df = w.params_df.copy()
        for k in w.params_df.loc["shares"].index:
            w.params_df.loc[("shares", k), "value"] *= 0.5

    changes = [("seed", lambda w: w.spec["SIMULATION"].update(seed_sim=99)), ("population size", lambda w: w.spec["SIMULATION"].update(num_agents_sim=3)),
               ("type shares", share)] + [(f"table of initial {n}", tab(n)) for n in ("educ", "child_age", "partner", "pt", "ft")]
    for name, f in changes:
        J, _ = build(case["cfg"], f)
        got = J.solve(case["biased"])
        for g, b in zip(got, base):
            out.close(g, b, f"the {name} of the simulation changes the solution")
        out.states += base[1].shape[0]
        out.transitions += base[1].size
        out.traces += 1
    out.sample = {"changes": [n for n, _ in changes]}
