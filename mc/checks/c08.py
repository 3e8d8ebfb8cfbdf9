"""Bellman optimality: every value is the expected best choice, in every state."""
from mc import families

BOUNDS = (
    "all discrete states x all grid points x all periods of every configuration in: one-axis "
    "deviations, full product of the policy/method switches, pair covering (thorough: two-axis "
    "deviations, triple covering), three long-horizon worlds; both expectation modes"
)
ASSUMPTIONS = [
    "reference model mc/ref.py states the documented budget, tax, benefit and utility rules",
    "floating point comparison at 1e-9 relative",
]
TECHNIQUE = "explicit-state enumeration of the dynamic programme, one-step Bellman conformance at every state"
LEVEL_NOTE = (
    "Every state of every configuration within the bound is compared with an independently written "
    "one-step optimality equation, using the implementation's own continuation values; trusts the "
    "reference rules and numpy."
)


def cases(tier):
    return [
        {"cfg": c, "biased": b}
        for c in families.solver_configs(tier)
        for b in (True, False)
    ]


def run_case(case, out):
    from mc import impl, ref, world

    w = world.World(case["cfg"]).write()
    I = impl.Impl(w)
    M = ref.Model(w.spec, w.params_df, w.tables)
    E = I.tensor(I.solve(case["biased"])[1])
    w.remove()
    for t in range(M.T):
        want = M.emax(t, E[t][..., :3], case["biased"])
        out.close(
            E[t][..., 3],
            want,
            f"expected maximum differs from the best choice in period {t}",
            names="educ,lagged,type,age+1,partner,grid",
        )
        out.states += want.size
        out.transitions += want.size * len(M.nodes) * 3
    out.traces += 1
    out.sample = {"value[0,0,0,no child,single]": E[0][0, 0, 0, 0, 0, :, 3].round(6).tolist()}
