"""Life-cycle transitions: the successor graph is exactly the documented one."""
import itertools

BOUNDS = "every state x choice x birth x partner outcome, for every size combination in cases()"
ASSUMPTIONS = ["the last period has no successor (marked by a negative entry)"]
TECHNIQUE = "explicit-state exploration of the successor graph, every edge compared and reachability from entry"
LEVEL_NOTE = "All edges of the transition graph are enumerated and compared with the life-cycle rules; no sampling."


def cases(tier):
    T = [1, 2, 4] if tier == "quick" else [1, 2, 3, 4, 6, 9]
    K = [1, 2, 4] if tier == "quick" else [1, 2, 3, 4, 11]
    A = [0, 1, 2, 3, 6, 10, 11, 12] if tier == "quick" else list(range(0, 19))
    out = [{"T": t, "E": e, "K": k, "A": A} for t, e, k in itertools.product(T, (1, 2, 3), K)]
    out.append({"T": 40, "E": 3, "K": 2, "A": [11]})
    out.append({"T": 30, "E": 3, "K": 4, "A": [15]})
    out += [{"T": 150, "E": 3, "K": 1, "A": [1]}, {"T": 2, "E": 3, "K": 130, "A": [0]}, {"T": 2, "E": 2, "K": 1, "A": [40, 150]}]
    return out


def run_case(case, out):
    import numpy as np
    from mc import impl, world

    reached = 0
    for A in case["A"]:
        cfg = {"T": case["T"], "educ_years": list(range(case["E"])), "types": case["K"],
               "child_age_max": A, "child_init_max": min(2, A)}
        w = world.World(cfg).write()
        spec = impl.read_model_spec_init(w.spec, w.params_df)
        states, indexer, _, rule, child = (np.asarray(x) for x in impl.create_state_space_objects(spec))
        w.remove()
        t, e, l, k, a, p = states.T
        want_age = np.where(a == -1, -1, np.where(a + 1 > A, -1, a + 1))
        bad = np.flatnonzero(rule != want_age)
        out.check(not bad.size, "a child does not age one year (and leave after the oldest age)", A=A,
                  example=None if not bad.size else [states[bad[0]].tolist(), int(rule[bad[0]])])
        if not out.check(child.shape == (len(states), 3, 2, 2), "successor table has the wrong shape"):
            return
        last = t == case["T"] - 1
        out.check((child[last] < 0).all(), "a final-period state has a successor", A=A)
        inner = np.flatnonzero(~last)
        for c, birth, q in itertools.product(range(3), range(2), range(2)):
            nxt = child[inner, c, birth, q]
            ok = (nxt >= 0) & (nxt < len(states))
            if not out.check(ok.all(), "a state inside the horizon has no successor", A=A):
                continue
            want = np.column_stack([
                t[inner] + 1, e[inner], np.full(inner.size, c), k[inner],
                np.zeros(inner.size, int) if birth else want_age[inner], np.full(inner.size, q),
            ])
            diff = np.flatnonzero((states[nxt] != want).any(axis=1))
            out.check(not diff.size, "a successor breaks the life-cycle rules", A=A,
                      example=None if not diff.size else {
                          "state": states[inner[diff[0]]].tolist(), "choice": c, "birth": birth,
                          "partner_next": q, "successor": states[nxt[diff[0]]].tolist(),
                          "expected": want[diff[0]].tolist()})
            out.transitions += inner.size
        # forward reachability from every possible entry situation
        front = np.zeros(len(states), bool)
        for lev, entry in enumerate(cfg["educ_years"]):
            front |= (e == lev) & (t == entry) & (a <= min(2, A))
        seen = front.copy()
        while front.any():
            nxt = child[np.flatnonzero(front & ~last)].reshape(-1)
            nxt = nxt[(nxt >= 0) & (nxt < len(states))]
            front = np.zeros(len(states), bool)
            front[nxt] = True
            front &= ~seen
            seen |= front
        reached += int(seen.sum())
        out.states += int(seen.sum())
        out.count("states_enumerated", len(states))
        early = seen & (t < np.asarray(cfg["educ_years"])[e])
        out.check(not early.any(), "a woman is active before her education ends", A=A)
    out.traces += len(case["A"])
    out.sample = {"reachable_states": reached}
