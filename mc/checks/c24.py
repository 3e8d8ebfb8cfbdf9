"""The compact data set is the full data set restricted to its columns."""
import itertools

from mc import families, world

BOUNDS = "every configuration of the pair covering, one-axis deviations and long worlds x both belief modes, public entry point"
ASSUMPTIONS = []
TECHNIQUE = "exhaustive configuration enumeration, row-by-row comparison of both outputs of the real simulation"
LEVEL_NOTE = "Both outputs are produced by the public entry point and compared on every row and column."


def cases(tier):
    cfgs = families.dedupe(world.covering(2) + world.deviations(1) + families.LARGE
                           + [{"T": 130, "educ_years": [0, 0, 0], "last_birth": 3, "types": 1, "child_age_max": 1, "grid": "uniform2"}])
    if tier != "quick":
        cfgs = cfgs + families.solver_configs(tier)
    # many women: identifiers beyond every 16-bit number
    cfgs = cfgs + [{"agents": 66_000, "T": 2, "types": 1, "educ_years": [0, 0, 0], "grid": "uniform2", "child_age_max": 1}]
    return [{"cfg": c, "biased": i % 2 == 0} for i, c in enumerate(cfgs)]


def wrapped(full, small):
    """The recorded defect, exactly: whole numbers above 127 wrap around in the compact data."""
    import numpy as np

    whole = np.nan_to_num(full)
    return bool((whole > 127).any() and (whole == whole.round()).all()
                and np.array_equal(np.where(whole > 127, whole - 256, whole), np.nan_to_num(small)))


def run_case(case, out):
    import numpy as np
    from mc import impl
    from soepy.simulate.constants_sim import LABELS_DATA_SPARSE

    cfg = {"agents": 150, **case["cfg"]}
    w = world.World(cfg).write()
    frames = {}
    for sparse in (False, True):
        frames[sparse] = impl.simulate(w.params_df, w.spec, biased_exp=case["biased"], data_sparse=sparse)
    w.remove()
    full, small = frames[False], frames[True]
    out.check(list(small.index.names) == ["Identifier", "Period"] == list(full.index.names), "index is not woman and period")
    if out.check(len(full) == len(small), "the number of rows differs between the compact and the full data"):
        a, b = (np.array([list(x) for x in f.index], dtype=int) for f in (full, small))
        out.check(np.array_equal(a[:, 0], b[:, 0]), "women differ between the compact and the full data")
        out.check(np.array_equal(a[:, 1], b[:, 1]), "periods differ between the compact and the full data",
                  key="compact-wraps-at-128" if wrapped(a[:, 1], b[:, 1]) else None)
    want = set(LABELS_DATA_SPARSE) - {"Identifier", "Period"}
    out.check(set(small.columns) == want | (set(small.columns) & set(full.columns)) and want <= set(small.columns) | {"Experience_Part_Time", "Experience_Full_Time"},
              "compact data lack a documented column", missing=sorted(want - set(small.columns)))
    if len(full) == len(small):
        for c in small.columns:
            if not out.check(c in full.columns, f"compact column {c} is not in the full data"):
                continue
            a, b = full[c].to_numpy(dtype=float), small[c].to_numpy(dtype=float)
            out.check(np.array_equal(a, b, equal_nan=True), f"column {c} differs between compact and full data",
                      key="compact-wraps-at-128" if wrapped(a, b) else None,
                      example=None if np.array_equal(a, b, equal_nan=True) else [float(a[~((a == b) | (np.isnan(a) & np.isnan(b)))][0]),
                                                                                 float(b[~((a == b) | (np.isnan(a) & np.isnan(b)))][0])])
    out.states += len(full)
    out.transitions += len(full) * len(small.columns)
    out.traces += 2
    out.sample = {"rows": len(full), "columns": list(small.columns)}
