"""Nature follows the supplied probabilities: births, partners, entry situations, types."""
import itertools

from mc import world

BOUNDS = (
    "every single-entry 0/1 table (period x education x event) and every 0/1 sequence to depth 4; every one-point "
    "entry distribution; for fractional tables every quantile on both sides of each probability"
)
ASSUMPTIONS = [
    "a birth when period t begins has the probability tabulated for period t; a partner change between t and t+1 "
    "the one tabulated for t",
    "fractional probabilities: the random source is replaced by constant quantiles where the code draws through "
    "numpy's binomial and choice",
]
TECHNIQUE = "exhaustive enumeration of 0/1 nature tables and controlled random quantiles on the real simulation"
LEVEL_NOTE = (
    "0/1 tables make nature deterministic, so every table entry is checked to govern exactly its own event; "
    "controlled quantiles check that fractional probabilities are thresholds at their own value."
)


def cases(tier):
    out = []
    T = 4 if tier == "quick" else 5
    for ey in ([0, 1, 2], [0, 0, 0]):
        for last in (0, 1, 9) if tier == "quick" else (0, 1, 2, 3, 9):
            out.append({"what": "entries", "cfg": {"shares": "equal", "T": min(T, 3) if last < 9 else T, "educ_years": ey, "last_birth": last, "types": 1, "child_age_max": 2}})
    S = 3 if tier == "quick" else 4
    for b in range(2 ** (S - 1)):
        out.append({"what": "sequences", "births": b, "cfg": {"T": S, "educ_years": [0, 0, 1], "last_birth": 9, "types": 1, "child_age_max": 3}})
    for init, cmax, types in itertools.product((0, 1, 2), (0, 1, 3), (1, 3)):
        out.append({"what": "entry", "cap": 50 if tier == "quick" else 500, "cfg": {"T": 3, "init_exp_max": init, "child_init_max": cmax, "types": types, "child_age_max": 4}})
    for init, cmax, types, sh in itertools.product((0, 1, 3), (0, 1, 3), (1, 2, 4), ("generic", "equal")):
        if tier == "quick" and (sh == "equal") != (types == 4 and init == cmax):
            continue
        out.append({"what": "shares", "cfg": {"T": 3, "educ_years": [0, 1, 2], "init_exp_max": init, "child_init_max": cmax,
                                              "types": types, "shares": sh, "child_age_max": 4}})
    for init, types in ((0, 1), (2, 3)):
        out.append({"what": "entry", "cap": 50, "cfg": {"T": 3, "init_exp_max": init, "child_init_max": -1, "types": types, "child_age_max": 4}})
        out.append({"what": "shares", "cfg": {"T": 3, "educ_years": [0, 1, 2], "init_exp_max": init, "child_init_max": -1,
                                              "types": types, "shares": "generic", "child_age_max": 4}})
    wide = {"T": 3, "init_exp_max": 6, "child_init_max": 8, "types": 12, "child_age_max": 10}
    for ey in ([0, 1, 2], [0, 0], [0]):
        out.append({"what": "entry", "cap": 60 if tier == "quick" else 1000, "cfg": {**wide, "educ_years": ey}})
        out.append({"what": "shares", "cfg": {**wide, "educ_years": ey, "shares": "generic"}})
    for p in ("generic", "zero", "one"):
        for last in (1, 9):
            out.append({"what": "quantiles", "cfg": {"T": 3 if tier == "quick" else T, "prob": p, "last_birth": last, "educ_years": [0, 0, 0], "types": 2}})
            out.append({"what": "quantiles", "cfg": {"T": 3 if tier == "quick" else T, "prob": p, "last_birth": last, "educ_years": [0, 1, 2], "types": 2}})
    return out


def setup(cfg):
    import numpy as np
    from mc import impl, ref, simx

    cfg = {"grid": "uniform2", **cfg}
    w = world.World(cfg).write()
    I = impl.Impl(w)
    w.remove()
    M = ref.Model(w.spec, w.params_df, w.tables)
    ncu, em = simx.forced_values(I, lambda s: np.zeros(len(s), int))
    return w, I, M, ncu, em


def expected(P, M, births, arrival, separation):
    """Child age and partner of every woman under 0/1 tables (period x education)."""
    import numpy as np

    e = P.at_entry("Education_Level").astype(int)
    age, par = np.full(P.present.shape, np.nan), np.full(P.present.shape, np.nan)
    a, q = P.at_entry("Age_Youngest_Child"), P.at_entry("Partner_Indicator")
    for t in range(P.T):
        on = P.present[:, t]
        age[on, t], par[on, t] = a[on], q[on]
        if t == P.T - 1:
            break
        aged = np.where(a == -1, -1, np.where(a + 1 > M.A, -1, a + 1))
        b = births[t + 1][e] if t <= M.last_birth else np.zeros(len(e))
        a = np.where(on, np.where(b == 1, 0, aged), a)
        q = np.where(on, np.where(q == 0, arrival[t][e], 1 - separation[t][e]), q)
    return age, par


def compare(P, M, tabs, out, what):
    age, par = expected(P, M, *tabs)
    out.close(P["Age_Youngest_Child"], age, f"births do not follow the supplied probabilities ({what})", names="agent,period")
    out.close(P["Partner_Indicator"], par, f"partner changes do not follow the supplied probabilities ({what})", names="agent,period")
    out.states += int(P.present.sum())
    out.transitions += int((P.present[:, 1:] & P.present[:, :-1]).sum())
    out.traces += len(P.ids)


def run_case(case, out):
    {"entries": entries, "sequences": sequences, "entry": entry, "quantiles": quantiles, "shares": shares}[case["what"]](case, out)


def entries(case, out):
    import numpy as np
    from mc import simx

    w, I, M, ncu, em = setup(case["cfg"])
    T, E = M.T, M.E
    zero = np.zeros((T, E))
    runs = [("nothing", zero, zero, zero)]
    for t, e in itertools.product(range(T), range(E)):
        one = zero.copy()
        one[t, e] = 1
        runs += [(f"birth in {t},{e}", one, zero, zero), (f"arrival in {t},{e}", zero, one, zero),
                 (f"separation in {t},{e}", zero, zero, one)]
    for name, b, a, s in runs:
        df, P, n = simx.run_covering(I, ncu, em, simx.nature(I, births=b, arrival=a, separation=s), start=2)
        compare(P, M, (b, a, s), out, "one event at a time")
    out.sample = {"tables": len(runs), "last": runs[-1][0]}


def sequences(case, out):
    import numpy as np
    from mc import simx

    w, I, M, ncu, em = setup(case["cfg"])
    T, E = M.T, M.E
    m = 2 ** (T - 1)
    bits = lambda v: np.array([(v >> i) & 1 for i in range(T - 1)])  # noqa: E731
    for a, s in itertools.product(range(m), range(m)):
        B = np.zeros((T, E))
        A = np.zeros((T, E))
        S = np.zeros((T, E))
        for e in range(E):  # different sequence per education level
            B[1:, e], A[: T - 1, e], S[: T - 1, e] = bits((case["births"] + e) % m), bits((a + e) % m), bits((s + 2 * e) % m)
        df = I.simulate(ncu, em, spec=I.spec._replace(num_agents_sim=96), probs={**simx.uniform_entry(I), **simx.nature(I, births=B, arrival=A, separation=S)})
        compare(simx.Panel(df, T), M, (B, A, S), out, "sequences")
    out.sample = {"sequences": m * m}


def entry(case, out):
    import numpy as np
    from mc import simx

    w, I, M, ncu, em = setup(case["cfg"])
    E, K = M.E, M.K
    spec = I.spec
    n_age, n_exp = spec.child_age_init_max + 2, spec.init_exp_max + 1

    def point(n, i):
        v = [0.0] * n
        v[i] = 1.0
        return v

    full = list(itertools.product(range(E), range(K), range(n_age), range(2), range(n_exp), range(n_exp)))
    full = full[:: -(-len(full) // case["cap"])]
    for e, k, a, p, x, y in full:
        # the other education levels get another situation, so a mix-up is visible
        oth = lambda n, i: [point(n, i if lev == e else (i + 1) % n) for lev in range(E)]  # noqa: E731
        probs = {
            "prob_educ_level": point(E, e), "prob_child_age": oth(n_age, a),
            "prob_partner_present": np.array([float(p if lev == e else 1 - p) for lev in range(E)]),
            "prob_exp_pt": oth(n_exp, x), "prob_exp_ft": oth(n_exp, y),
        }
        params = I.params._replace(type_shares=point(K, k))
        df = I.simulate(ncu, em, spec=spec._replace(num_agents_sim=7), probs=probs, params=params)
        P = simx.Panel(df, M.T)
        want = (e, k, a - 1, p, x, y)
        got = P.cells(simx.ENTRY)
        out.check(got == {tuple(float(v) for v in want)}, "entry situations do not follow the supplied distributions",
                  want=want, got=sorted(got)[:3])
        out.check(len(P.ids) == 7 and (P.entry == M.educ_years[e]).all(), "entry period does not follow education")
        out.states += 1
        out.transitions += len(simx.ENTRY)
        out.traces += 7
    out.sample = {"entry_situations": len(full)}


class Quantile:
    """Stand-in for the random source: every draw is the u-quantile of the requested law."""

    def __init__(self, u):
        self.u, self.calls = u, 0

    def binomial(self, n=1, p=0.5, size=None):
        import numpy as np

        self.calls += 1
        return (self.u < np.broadcast_to(np.asarray(p, float), size if size is not None else np.shape(p))).astype(int)

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np

        self.calls += 1
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        p = np.full(len(a), 1 / len(a)) if p is None else np.asarray(p, float)
        if len(p) != len(a) or abs(p.sum() - 1) > 1e-6 or (p < -1e-12).any():
            raise AssertionError("a draw is requested from something that is no distribution")
        j = min(int(np.searchsorted(np.cumsum(p), self.u, side="right")), len(a) - 1)
        return np.full(size, a[j])


    def uniform(self, low=0.0, high=1.0, size=None):
        import numpy as np

        self.calls += 1
        return np.full(size, low + (high - low) * self.u) if size is not None else low + (high - low) * self.u

    def installed(self, keep=()):
        """The stand-in in place of every function of numpy's global source that can decide an event."""
        import contextlib
        from unittest import mock

        stack = contextlib.ExitStack()
        for name, f in {"binomial": self.binomial, "choice": self.choice, "uniform": self.uniform,
                        "random_sample": lambda size=None: self.uniform(size=size), "random": lambda size=None: self.uniform(size=size),
                        "rand": lambda *d: self.uniform(size=d or None)}.items():
            if name not in keep:
                stack.enter_context(mock.patch(f"numpy.random.{name}", f))
        return stack


def around(*tables):
    import numpy as np

    us = set()
    for p in np.concatenate([np.ravel(np.asarray(t, float)) for t in tables]):
        us |= {p - 1e-6, p + 1e-6}
    return sorted(u for u in us if 0 < u < 1) or [0.5]


def quantiles(case, out):
    """With every draw at quantile u, an event with probability p happens iff u < p."""
    import numpy as np
    from mc import simx

    w, I, M, ncu, em = setup(case["cfg"])
    T, E = M.T, M.E
    born = M.p_child[:, :E]
    us = around(born, M.p_arr, M.p_sep)
    total = 0
    for i, u in enumerate(us):
        for flip in (0, 1):
            ctl = Quantile(u)
            start = np.array([(e + i + flip) % 2 for e in range(E)], float)
            with ctl.installed(keep=("choice",)):
                df = I.simulate(ncu, em, spec=I.spec._replace(num_agents_sim=120),
                                probs={**simx.uniform_entry(I), "prob_partner_present": start})
            total += ctl.calls
            if ctl.calls:
                tabs = tuple((u < x).astype(float) for x in (born, M.p_arr, M.p_sep))
                compare(simx.Panel(df, T), M, tabs, out, "quantiles")
    out.count("controlled_draws", total)
    out.sample = {"quantiles": len(us), "controlled_draws": total}


def shares(case, out):
    """Entry situations are drawn from the tables as written (first share = remainder)."""
    import numpy as np
    from mc import simx

    w, I, M, ncu, em = setup(case["cfg"])
    E, T = M.E, M.T
    tab = w.tables
    educ = tab["educ"]["educ_shares"].to_numpy()
    age = [tab["child_age"]["child_age_shares"].xs(e, level="educ_level") for e in range(E)]
    exp = {x: [tab[x]["exper_shares"].xs(e, level="educ_level") for e in range(E)] for x in ("pt", "ft")}
    par = tab["partner"]["partner_shares"].to_numpy()
    cum = [np.cumsum(educ), np.cumsum(M.type_shares), par] + [np.cumsum(s.to_numpy()) for s in age + exp["pt"] + exp["ft"]]
    total = 0

    def pick(s, u):
        return s.index[min(int(np.searchsorted(np.cumsum(s.to_numpy()), u, side="right")), len(s) - 1)]

    import pandas as pd

    for u in around(*cum):
        ctl = Quantile(u)
        with ctl.installed():
            df = I.simulate(ncu, em, spec=I.spec._replace(num_agents_sim=5))
        total += ctl.calls
        if not ctl.calls:
            continue
        e = pick(pd.Series(educ), u)
        want = (e, pick(pd.Series(M.type_shares), u), pick(age[e], u), int(u < par[e]), pick(exp["pt"][e], u), pick(exp["ft"][e], u))
        got = simx.Panel(df, T).cells(simx.ENTRY)
        out.check(got == {tuple(float(v) for v in want)}, "an entry situation is not the quantile of its supplied distribution",
                  quantile=u, want=[float(v) for v in want], got=sorted(got)[:2])
        out.states += 1
        out.transitions += len(simx.ENTRY)
        out.traces += 5
    out.count("controlled_draws", total)
    out.sample = {"controlled_draws": total}
