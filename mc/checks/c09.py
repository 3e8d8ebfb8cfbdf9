"""Continuation values: the expectation over exactly the states that can follow."""
from mc import families

BOUNDS = (
    "all discrete states x choices x grid points x periods of every configuration in the solver "
    "family (see C08), both expectation modes"
)
ASSUMPTIONS = [
    "births between t and t+1 are weighted with the table row of period t (see known finding of C15)",
    "floating point comparison at 1e-9 relative",
]
TECHNIQUE = "explicit-state enumeration of all successors, expectation conformance at every transition"
LEVEL_NOTE = (
    "For every state and choice the successors are enumerated by an independent life-cycle model and "
    "the expectation over the implementation's own next-period values is recomputed."
)


def cases(tier):
    return [
        {"cfg": c, "biased": b}
        for c in families.solver_configs(tier)
        for b in (True, False)
    ]


def run_case(case, out):
    import numpy as np
    from mc import impl, ref, world

    w = world.World(case["cfg"]).write()
    I = impl.Impl(w)
    M = ref.Model(w.spec, w.params_df, w.tables)
    E = I.tensor(I.solve(case["biased"])[1])
    w.remove()
    for t in range(M.T):
        if t == M.T - 1:
            want = np.zeros(M.shape() + (3,))
        else:
            want = M.continuation(t, E[t + 1][..., 3], case["biased"])
        out.close(
            E[t][..., :3],
            want,
            f"continuation value differs from the expectation over successors in period {t}",
            names="educ,lagged,type,age+1,partner,grid,choice",
        )
        out.states += want.size // 3
        out.transitions += want.size * 4
    out.traces += 1
    out.sample = {"continuation[0,0,0,no child,single,x=0]": E[0][0, 0, 0, 0, 0, 0, :3].round(6).tolist()}
