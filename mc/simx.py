"""Exploring simulated life courses: forced choices, forced nature, forced entry situations.

The simulation is driven through its public arguments only: the value arrays decide the
choices, 0/1 probability tables decide nature, 0/1 initial distributions decide entry.
"""
import itertools

import numpy as np
from mc import core

BIG = 1e25


def sequences(T):
    return list(itertools.product(range(3), repeat=T))


def forced_values(I, policy):
    """Value array under which ``policy(state rows) -> choice`` is optimal everywhere."""
    s = np.asarray(I.states)
    want = policy(s)
    em = np.zeros((len(s), len(I.world.spec["exp_grid"]), 4))
    em[np.arange(len(s)), :, want] = BIG
    return np.ones((len(s), 3)), em


def by_type(seqs):
    """Policy: women of type k follow choice sequence k."""
    table = np.array(seqs)
    return lambda s: table[s[:, 3], s[:, 0]]


def uniform_entry(I):
    """Initial distributions giving every entry situation the same weight."""
    E = I.spec.num_educ_levels

    def flat(n):
        return [[1 / n] * n for _ in range(E)]

    n_exp = I.spec.init_exp_max + 1
    return {
        "prob_educ_level": [1 / E] * E,
        "prob_child_age": flat(I.spec.child_age_init_max + 2),
        "prob_partner_present": np.full(E, 0.5),
        "prob_exp_pt": flat(n_exp),
        "prob_exp_ft": flat(n_exp),
    }


def nature(I, births=None, partner=None, arrival=None, separation=None):
    """0/1 tables. ``births[t]``: birth when period t begins; ``partner[t]``: partnered in t + 1."""
    T, E = I.spec.num_periods, I.spec.num_educ_levels
    out = {}
    if births is not None:
        b = np.asarray(births, float)
        pc = np.zeros((T, 3))
        pc[:] = b[:, None] if b.ndim == 1 else np.pad(b, ((0, 0), (0, 3 - b.shape[1])))
        out["prob_child"] = pc
    if partner is not None:
        arrival, separation = partner, 1 - np.asarray(partner)
    if arrival is not None:
        pm = np.zeros((T, E, 2, 2))
        a, s = (np.asarray(x, float) for x in (arrival, separation))
        a = a[:, None] if a.ndim == 1 else a
        s = s[:, None] if s.ndim == 1 else s
        pm[:, :, 0, 1], pm[:, :, 1, 0] = a, s
        pm[:, :, 0, 0], pm[:, :, 1, 1] = 1 - pm[:, :, 0, 1], 1 - pm[:, :, 1, 0]
        out["prob_partner"] = pm
    return out


class Panel:
    """A simulated frame as (agent, period) matrices; absent = NaN."""

    def __init__(self, df, T):
        df = df.reset_index() if "Identifier" not in df.columns else df
        self.ids = np.unique(df["Identifier"].to_numpy())
        self.T = T
        row = np.searchsorted(self.ids, df["Identifier"].to_numpy())
        per = df["Period"].to_numpy().astype(int)
        self.columns = [c for c in df.columns if c not in ("Identifier", "Period")]
        self.duplicates = len(df) - len(set(zip(row.tolist(), per.tolist())))
        self.outside = int(((per < 0) | (per >= T)).sum())
        keep = (per >= 0) & (per < T)
        self.present = np.zeros((len(self.ids), T), bool)
        self.present[row[keep], per[keep]] = True
        self.m = {}
        for c in self.columns:
            a = np.full((len(self.ids), T), np.nan)
            a[row[keep], per[keep]] = df[c].to_numpy().astype(float)[keep]
            self.m[c] = a
        self.entry = np.argmax(self.present, axis=1)
        self.rows = len(df)

    def __getitem__(self, c):
        return self.m[c]

    def at_entry(self, c):
        return self.m[c][np.arange(len(self.ids)), self.entry]

    def cells(self, cols):
        """Distinct entry situations reached."""
        return {tuple(r) for r in np.column_stack([self.at_entry(c) for c in cols]).tolist()}


ENTRY = ["Education_Level", "Type", "Age_Youngest_Child", "Partner_Indicator",
         "Experience_Part_Time", "Experience_Full_Time"]


def entry_product(I):
    c = I.spec
    return (c.num_educ_levels, c.num_types, c.child_age_init_max + 2, 2,
            c.init_exp_max + 1, c.init_exp_max + 1)


def run_covering(I, ncu, em, probs, sparse=False, entry=True, start=12, spec=None):
    """Simulate with enough women that *every* entry situation occurs (measured, not assumed)."""
    spec = spec or I.spec
    full = int(np.prod(entry_product(I)))
    n = max(64, start * full)
    alive = [y for y in I.spec.educ_years if y < I.spec.num_periods]
    full = full // I.spec.num_educ_levels * len(alive)
    for _ in range(6):
        df = I.simulate(ncu, em, sparse=sparse, spec=spec._replace(num_agents_sim=n),
                        probs={**(uniform_entry(I) if entry else {}), **probs})
        P = Panel(df, I.spec.num_periods)
        if not entry or len(P.cells(ENTRY)) >= full:
            return df, P, n
        n *= 2
    raise core.Uncovered(
        f"entry situations of positive probability never occur among {n // 2} women: {len(P.cells(ENTRY))} of {full} do")


def normal_table(seed, T, N):
    """The seeded table of standard normal wage shocks, one column per woman."""
    return np.random.RandomState(seed).normal(0, 1, (T, N))


def shock_columns(P, M, n_agents, sigma, seed):
    """Column of the shock table each woman lives on (-1 if her wages fit none), and the table."""
    Z = normal_table(seed, P.T, n_agents) * sigma
    order = np.lexsort((P.ids, P.entry))
    col = np.empty(len(P.ids), int)
    col[order] = np.arange(len(P.ids))
    resid = residuals(P, M)
    col[~_fits(resid, Z, col)] = -1
    for i in np.flatnonzero(col == -1):
        t = np.flatnonzero(~np.isnan(resid[i]))[0]
        for j in np.flatnonzero(np.abs(Z[t] - resid[i, t]) < 1e-7):
            if _fits(resid[i: i + 1], Z, np.array([j]))[0]:
                col[i] = j
    return col, Z


def _fits(resid, Z, col):
    got = Z[:, col].T
    return ~(np.abs(resid - got) > 1e-7 * (1 + np.abs(got))).any(axis=1)


def residuals(P, M):
    """Log wage shock of every worked period (NaN otherwise)."""
    e = P.at_entry("Education_Level").astype(int)
    out = np.full(P.present.shape, np.nan)
    for t in range(P.T):
        on = P.present[:, t] & ~np.isnan(P["Wage_Observed"][:, t])
        inc = M.inc(e[on], P["Age_Youngest_Child"][on, t].astype(int), False)
        lw = M.log_wage(e[on], P["Experience_Stock"][on, t], t, inc)
        out[on, t] = np.log(P["Wage_Observed"][on, t]) - lw
    return out
