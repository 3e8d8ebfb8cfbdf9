"""Simulated life courses are legal: one row per active period, and only allowed transitions."""
from mc import families, world

BOUNDS = (
    "every configuration of the demographic family (see cases()) x every entry situation; every sequence of "
    "births and partner events forced at depth T; every observed transition judged"
)
ASSUMPTIONS = ["a woman enters in the period her education ends and stays to the horizon"]
TECHNIQUE = "exhaustive exploration of forced life courses on the real simulation, every transition judged by the life-cycle model"
LEVEL_NOTE = (
    "All entry situations and nature sequences within the bound are forced through the real simulation "
    "(coverage measured) and every row and transition is judged."
)
CODES = {"Age_Youngest_Child": "child", "Partner_Indicator": "partner"}


def cases(tier):
    ax = {"T": [1, 2, 3, 5], "educ_years": [[0, 1, 2], [0, 0, 0], [0, 1], [1, 1, 2], [2, 0, 1], [0, 3, 6]],
          "child_age_max": [0, 1, 2, 3], "child_init_max": [0, 1, 3, -1], "init_exp_max": [0, 1, 2], "types": [1, 2, 3],
          "last_birth": [0, 1, 2, 9, -1], "prob": ["generic", "zero", "one"]}
    cfgs = world.covering(2 if tier == "quick" else 3, ax) + world.deviations(1, ax)
    out = [{"cfg": c, "force": None} for c in families.dedupe(cfgs)]
    T = 4
    for b in range(2 ** (T - 1)):
        out.append({"cfg": {"T": T, "last_birth": 9, "child_age_max": 1 + b % 3, "educ_years": [0, 1, 2] if b % 2 else [0, 0, 0]},
                    "force": b})
    # every composition of a small population: entry waves of nobody, of one woman, of several
    for ey in ([0, 1, 2], [2, 0, 1], [0, 0, 1], [1, 2, 3], [0, 3, 6]):
        out.append({"cfg": {"T": 4, "educ_years": ey, "types": 2, "grid": "uniform2"}, "force": None, "tiny": 4 if tier == "quick" else 6})
    for c in families.LARGE:
        out.append({"cfg": c, "force": None, "entry": False})
    return out


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, simx

    w = world.World(case["cfg"]).write()
    I = impl.Impl(w)
    w.remove()
    M = ref.Model(w.spec, w.params_df, w.tables)
    T = M.T
    ncu, em = I.solve(False)
    alive = [e for e, y in enumerate(M.educ_years) if y < T]
    if case.get("tiny"):
        runs = tiny(I, M, ncu, em, case["tiny"], out)
        laws = [(M.p_child, M.p_arr, M.p_sep)] * len(runs)
    elif case["force"] is None:
        if case.get("entry", True):
            runs = [simx.run_covering(I, ncu, em, {}, start=4)]
        else:
            n = 3000
            df = I.simulate(ncu, em, spec=I.spec._replace(num_agents_sim=n))
            runs = [(df, simx.Panel(df, T), n)]
        laws = [(M.p_child, M.p_arr, M.p_sep)]
    else:
        runs, laws = [], []
        births = [0] + [(case["force"] >> i) & 1 for i in range(T - 1)]
        for q in range(2 ** (T - 1)):
            partner = np.array([(q >> i) & 1 for i in range(T - 1)] + [0])
            probs = simx.nature(I, births=births, partner=partner)
            runs.append(simx.run_covering(I, ncu, em, probs, start=2))
            pm = probs["prob_partner"]
            laws.append((probs["prob_child"], pm[:, :, 0, 1], pm[:, :, 1, 0]))
    seen_states, seen_edges = set(), set()
    for (df, P, n), law in zip(runs, laws):
        legal(df, P, n, M, alive, law, out, seen_states, seen_edges)
        out.traces += len(P.ids)
    out.states += len(seen_states)
    out.transitions += len(seen_edges)
    out.sample = {"agents": int(runs[-1][2]), "rows": int(runs[-1][1].rows)}


def tiny(I, M, ncu, em, largest, out):
    """All education compositions of populations of 1..largest women (every woman's level decided by the seed)."""
    import math
    from mc import core, simx

    runs = []
    for n in range(1, largest + 1):
        want, seed, found = math.comb(n + M.E - 1, n), 0, set()
        while len(found) < want:
            if seed == 400:
                raise core.Uncovered(f"only {sorted(found)} occur among populations of {n}")
            df = I.simulate(ncu, em, spec=I.spec._replace(num_agents_sim=n, seed_sim=seed), probs=simx.uniform_entry(I))
            seed += 1
            P = simx.Panel(df, M.T)
            educ = P.at_entry("Education_Level").astype(int).tolist()
            levels = tuple(sorted(educ + [-1] * (n - len(educ))))  # -1: enters after the horizon or is missing
            if levels not in found:
                found.add(levels)
                if any(y >= M.T for y in M.educ_years):
                    late = sum(y >= M.T for y in M.educ_years)
                    want = sum(math.comb(m + M.E - late - 1, m) if M.E > late else int(m == 0) for m in range(n + 1))
                runs.append((df, P, n))
        out.count("compositions", len(found))
    return runs


def legal(df, P, n, M, alive, law, out, seen_states, seen_edges):
    import numpy as np

    T = M.T
    ey = np.array(M.educ_years)
    pc, pa, ps = law
    out.check(P.duplicates == 0, "a woman has two rows for one period", n=P.duplicates)
    out.check(P.outside == 0, "a row lies outside the horizon")
    out.check(((P.ids >= 0) & (P.ids < n)).all(), "identifiers are not 0..n-1")
    if len(alive) == len(ey):
        out.check(len(P.ids) == n, "women are missing from or added to the population", got=len(P.ids), want=n)
    for c in ("Education_Level", "Lagged_Choice", "Type", "Age_Youngest_Child", "Partner_Indicator", "Choice",
              "Experience_Part_Time", "Experience_Full_Time"):
        v = P[c][P.present]
        out.check(np.array_equal(v, np.round(v)), f"{c} is missing or fractional")
    e = P.at_entry("Education_Level").astype(int)
    k = P.at_entry("Type").astype(int)
    out.check(((e >= 0) & (e < M.E)).all() and ((k >= 0) & (k < M.K)).all(), "unknown education or type")
    want = np.arange(T)[None, :] >= ey[e][:, None]
    out.check(np.array_equal(P.present, want), "a woman is not active from the end of her education to the horizon")
    for c in ("Education_Level", "Type"):
        v = P[c]
        out.check(np.array_equal(v[P.present], np.broadcast_to(P.at_entry(c)[:, None], v.shape)[P.present]), f"{c} changes over life")
    a0, p0 = P.at_entry("Age_Youngest_Child"), P.at_entry("Partner_Indicator")
    spec_max = M.child_init_max
    out.check(((a0 >= -1) & (a0 <= spec_max)).all(), "initial child age out of range")
    for c in ("Experience_Part_Time", "Experience_Full_Time"):
        v = P.at_entry(c)
        out.check(((v >= 0) & (v <= M.init_exp_max)).all(), f"initial {c} out of range")
    del p0
    ch, lag, age, par = P["Choice"], P["Lagged_Choice"], P["Age_Youngest_Child"], P["Partner_Indicator"]
    for v, name, lo, hi in ((ch, "choice", 0, 2), (lag, "last choice", 0, 2), (age, "child age", -1, M.A), (par, "partner", 0, 1)):
        x = v[P.present]
        out.check(((x >= lo) & (x <= hi)).all(), f"{name} out of range")
    for t in range(T):
        on = P.present[:, t]
        seen_states |= set(map(tuple, np.column_stack([np.full(on.sum(), t), e[on], lag[on, t], k[on], age[on, t], par[on, t]]).astype(int).tolist()))
        if t == T - 1:
            break
        on = on & P.present[:, t + 1]
        A, B, cho = age[on, t].astype(int), age[on, t + 1].astype(int), ch[on, t].astype(int)
        q, r, ed = par[on, t].astype(int), par[on, t + 1].astype(int), e[on]
        out.check(np.array_equal(lag[on, t + 1], ch[on, t]), "last choice is not the choice made", period=t)
        aged = np.where(A == -1, -1, np.where(A + 1 > M.A, -1, A + 1))
        may_birth = (pc[t + 1][ed] > 0) & (t <= M.last_birth)
        must_birth = (pc[t + 1][ed] >= 1) & (t <= M.last_birth)
        ok = (~must_birth & (B == aged)) | (may_birth & (B == 0))
        _first(out, ok, "illegal change of the youngest child's age", t, A, B, ed)
        ok = np.where(q == 0, np.where(r == 1, pa[t][ed] > 0, pa[t][ed] < 1), np.where(r == 0, ps[t][ed] > 0, ps[t][ed] < 1))
        _first(out, ok, "illegal change of partner status", t, q, r, ed)
        seen_edges |= set(map(tuple, np.column_stack([np.full(on.sum(), t), ed, k[on], A, q, cho, B, r]).tolist()))


def _first(out, ok, msg, t, a, b, e):
    import numpy as np

    if not ok.all():
        i = int(np.flatnonzero(~ok)[0])
        out.fail(msg, period=t, before=int(a[i]), after=int(b[i]), education=int(e[i]), cases=int((~ok).sum()))
