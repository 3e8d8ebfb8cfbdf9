"""State space: every life situation exactly once, and lookup finds it."""
import itertools

BOUNDS = "every size combination: periods x education levels x types x child-age limits (0..18), see cases()"
ASSUMPTIONS = ["the lookup table is addressed with the childless state in the last age slot"]
TECHNIQUE = "exhaustive enumeration of the state space, set equality with the product of all life situations"
LEVEL_NOTE = "Complete enumeration of the state space for every size within the bound; no sampling."


def cases(tier):
    T = [1, 2, 3, 5, 9] if tier == "quick" else [1, 2, 3, 4, 5, 6, 8, 13, 24]
    K = [1, 2, 3, 4, 11] if tier == "quick" else [1, 2, 3, 4, 5, 7, 11, 13]
    A = [0, 1, 2, 3, 5, 6, 9, 10, 11, 12, 18] if tier == "quick" else list(range(0, 19))
    out = [
        {"T": t, "E": e, "K": k, "A": A}
        for t, e, k in itertools.product(T, (1, 2, 3), K)
    ]
    out.append({"T": 60, "E": 3, "K": 4, "A": [11]})
    out += [{"T": 150, "E": 3, "K": 1, "A": [1]}, {"T": 2, "E": 3, "K": 130, "A": [0]}, {"T": 2, "E": 2, "K": 1, "A": [40, 150]}]
    return out


def run_case(case, out):
    import numpy as np
    from mc import impl, world

    digest = None
    for A in case["A"]:
        cfg = {
            "T": case["T"],
            "educ_years": list(range(case["E"])),
            "types": case["K"],
            "child_age_max": A,
        }
        w = world.World(cfg)
        spec = impl.read_model_spec_init(w.write().spec, w.params_df)
        objs = impl.create_state_space_objects(spec)
        w.remove()
        states, indexer = np.asarray(objs[0]), np.asarray(objs[1])
        want = set(
            itertools.product(
                range(case["T"]), range(case["E"]), range(3), range(case["K"]),
                range(-1, A + 1), range(2),
            )
        )
        rows = [tuple(int(x) for x in r) for r in states]
        got = set(rows)
        out.states += len(rows)
        out.transitions += len(want)
        out.check(len(rows) == len(got), "a life situation is represented twice", A=A)
        missing, extra = want - got, got - want
        out.check(not missing, "a life situation is missing", A=A, example=sorted(missing)[:1])
        out.check(not extra, "an impossible life situation is represented", A=A, example=sorted(extra)[:1])
        if missing or extra or len(rows) != len(got):
            return
        shape = (case["T"], case["E"], 3, case["K"], A + 2, 2)
        if not out.check(indexer.shape == shape, "lookup table has the wrong size", A=A, shape=indexer.shape):
            return
        age_slot = np.where(states[:, 4] == -1, A + 1, states[:, 4])
        found = indexer[states[:, 0], states[:, 1], states[:, 2], states[:, 3], age_slot, states[:, 5]]
        bad = np.flatnonzero(found != np.arange(len(rows)))
        out.check(bad.size == 0, "lookup of a life situation finds another one", A=A,
                  example=None if not bad.size else {"state": rows[bad[0]], "found": int(found[bad[0]])})
        out.check(np.unique(indexer).size == indexer.size, "two lookups share a result", A=A)
        for name, arr in [("covariates", objs[2]), ("age rule", objs[3]), ("successors", objs[4])]:
            out.check(len(arr) == len(rows), f"{name} table does not cover every state", A=A)
        digest = [len(rows), rows[-1]]
    out.traces += len(case["A"])
    out.sample = {"states_in_last_size": digest[0], "last_state": digest[1]}
