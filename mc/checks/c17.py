"""Same inputs, same results: whatever was computed before, in this process or another."""
BOUNDS = (
    "every single-input variant of a model run before and after the model and its other variants in one process, tables rewritten "
    "in place included; "
    "every window of 2 operations of a 10-operation alphabet and every window of 3 of a 4-operation one (thorough: 3 "
    "and 4, 5 operations), as de Bruijn sequences cut into segments that run in fresh processes"
)
ASSUMPTIONS = ["calls are made one after another (concurrent calls in one process share numpy's random state)"]
TECHNIQUE = "exhaustive enumeration of call histories, every result compared with the result of every other history"
LEVEL_NOTE = (
    "Every operation is executed after every history of the stated length, including interference with the random "
    "state and with returned data; results must be bit-identical and inputs must stay untouched."
)
FRESH_PROCESSES = True

ALL = ["A", "A_compact", "A_true_beliefs", "B", "prepared A", "prepared A for A2", "prepared B", "solve A", "A from files",
       "interfere"]
CORE = ["A", "B", "prepared A for A2", "A from files", "interfere"]


def de_bruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1: p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def segments(ops, n, parts):
    seq = [ops[i] for i in de_bruijn(len(ops), n)]
    size = -(-(len(seq) - n + 1) // parts)
    return [{"ops": seq[i: i + size + n - 1], "window": n} for i in range(0, len(seq) - n + 1, size)]


def cases(tier):
    names = sorted(variants())
    size = 7 if tier == "quick" else 4
    out = []
    for i in range(0, len(names), size):
        part = names[i: i + size]
        out += [{"variants": ["", *part]}, {"variants": [*reversed(part), ""]}]
    if tier == "quick":
        return segments(ALL, 2, 8) + segments(CORE[:3] + CORE[4:], 3, 8) + out
    return segments(ALL, 3, 24) + segments(CORE, 4, 24) + out


A = {"T": 2, "types": 2, "agents": 40, "educ_years": [0, 0, 1]}
A2 = {**A, "wage_shift": 0.8, "sigma": 1.3, "seed_sim": 5, "agents": 31}
B = {"T": 3, "types": 3, "agents": 50, "regime": "erziehungsgeld", "splitting": False, "integration": "monte_carlo", "grid": "uneven4",
     "educ_years": [0, 1, 2]}


def digest(*arrays):
    import hashlib

    import numpy as np

    h = hashlib.sha1()
    for a in arrays:
        a = np.ascontiguousarray(np.asarray(a, dtype=float))
        h.update(str(a.shape).encode())
        h.update(np.where(np.isnan(a), -1e300, a).tobytes())
    return h.hexdigest()


def frame_digest(df):
    d = df.reset_index()
    return digest(d.to_numpy(dtype=float)) + "|" + ",".join(d.columns)


def files(directory):
    import hashlib
    import os

    out = {}
    for n in sorted(os.listdir(directory)):
        with open(os.path.join(directory, n), "rb") as f:
            out[n] = hashlib.sha1(f.read()).hexdigest()
    return out


VARIED = {
    "regime": "erziehungsgeld", "splitting": False, "integration": "monte_carlo", "ndraws": 5, "sigma": 1.3, "elasticity": 1.4,
    "grid": "uneven4", "mu": -1.3, "delta": 0.7, "gamma_mom": 0.9, "gamma_p": "half", "gamma_1": "steep", "wage_shift": 0.8,
    "partner_shift": 1.1, "child_benefits": 5.0, "child_care": "steep", "benefits": "small", "kids_util": "zero",
    "educ_years": [0, 0, 0], "types": 3, "child_age_max": 2, "child_init_max": 0, "init_exp_max": 0, "last_birth": 0,
    "agents": 33, "seed_sim": 9, "shares": "even", "T": 3,
}


def variants():
    """name -> (configuration, (group, entry, value) or None, table rewritten in place or None)"""
    out = {f"{k}={v}": ({**A, k: v}, None, None) for k, v in VARIED.items()}
    mc = {**A, "integration": "monte_carlo"}
    out["seed_emax"] = ({**mc, "seed_emax": 4}, None, None)
    for k, v in {"alg1_replacement_no_child": 0.3, "alg1_replacement_child": 0.35, "regelsatz_single": 150, "regelsatz_child": 9,
                 "elterngeld_replacement": 0.2, "elterngeld_min": 900, "elterngeld_max": 500, "addition_child_single": 99,
                 "housing_single": 11, "housing_addtion": 70, "ssc_rate": 0.1, "ssc_cap": 9000}.items():
        out[k] = (A, ("TAXES_TRANSFERS", k, v), None)
    for k, v in {"partner_cf_age": 0.1, "partner_cf_age_sq": 0.2, "partner_cf_educ": 0.9}.items():
        out[k] = (A, ("EXOG_PROC", k, v), None)
    for table in ("educ", "child_age", "partner", "ft", "pt", "child", "arrival", "separation"):
        out[f"{table} rewritten"] = (A, None, table)
    out["parameters rewritten"] = (A, None, "params")
    return out


def run_variants(case, out):
    """Every single-input change, before and after the unchanged model, in one process."""
    import os

    import numpy as np
    import yaml
    from mc import impl, world

    base = world.World(A).write()
    table_of = variants()
    for name in case["variants"]:
        if name == "":
            df = impl.simulate(base.params_df, base.spec)
        else:
            cfg, entry, table = table_of[name]
            if table:
                path = os.path.join(base.dir, f"{table}.pkl")
                spec_path = os.path.join(base.dir, "spec.yml")
                with open(spec_path, "w") as f:
                    yaml.dump(base.spec, f)
                old = base.params_df if table == "params" else base.tables[table]
                old.to_pickle(path)
                par = path if table == "params" else base.params_df
                first = impl.simulate(par, spec_path)
                out.observe("the model", frame_digest(first))
                new = old.copy()
                if table == "params":
                    new.iloc[:3, 0] += 0.5
                else:
                    new.iloc[:, 0] = np.asarray(new.iloc[::-1, 0])
                new.to_pickle(path)
                df = impl.simulate(par, spec_path)
                old.to_pickle(path)
            else:
                w = world.World(cfg).write()
                if entry:
                    w.spec[entry[0]][entry[1]] = entry[2]
                df = impl.simulate(w.params_df, w.spec)
                w.remove()
        out.observe(f"the model with {name}" if name else "the model", frame_digest(df))
        out.count("rows", len(df))
        out.transitions += 1
    base.remove()
    out.states += len(case["variants"])
    out.traces += 1
    out.sample = {"history": case["variants"]}


def run_case(case, out):
    if "variants" in case:
        return run_variants(case, out)
    import copy
    import os

    import numpy as np
    import yaml
    from mc import impl, world

    # all worlds of this process live in its own scratch directory, which is also its working directory
    home = world.fresh_dir()
    os.chdir(home)
    W = {n: world.World(c).write() for n, c in (("A", A), ("A2", A2), ("B", B))}
    paths = (os.path.join(W["A"].dir, "spec.yml"), os.path.join(W["A"].dir, "params.pkl"))
    with open(paths[0], "w") as f:
        yaml.dump(W["A"].spec, f)
    W["A"].params_df.to_pickle(paths[1])
    before = {n: (copy.deepcopy(w.spec), w.params_df.copy(deep=True), files(w.dir)) for n, w in W.items()}
    cache, last = {}, []
    I = impl.Impl(W["A"])
    objs = [np.asarray(x).copy() for x in (I.states, I.indexer, I.covariates, I.age_rule, I.child_idx)]

    def sim(name, **kw):
        w = W[name]
        return impl.simulate(w.params_df, w.spec, **kw)

    def prepared(name):
        w = W[name]
        if name not in cache:
            cache[name] = impl.get_simulate_func(w.params_df, w.spec)
        return cache[name]

    for step, op in enumerate(case["ops"]):
        if op == "interfere":
            np.random.seed(step)
            np.random.rand(7 + step)
            for x in last:
                x.iloc[:, :] = -7
            last = []
            out.transitions += 1
            continue
        if op == "solve A":
            ncu, em = impl.pyth_solve(I.states, I.covariates, I.child_idx, I.params, I.spec, I.probs["prob_child"],
                                      I.probs["prob_partner"], True)
            out.observe("solution of A", digest(ncu, em))
            for a, b in zip(objs, (I.states, I.indexer, I.covariates, I.age_rule, I.child_idx)):
                out.check(np.array_equal(a, np.asarray(b), equal_nan=True), "solving changes the state space it is given")
        else:
            if op == "A":
                name, df = "data of A", sim("A")
            elif op == "B":
                name, df = "data of B", sim("B")
            elif op == "A_compact":
                name, df = "compact data of A", sim("A", data_sparse=True)
            elif op == "A_true_beliefs":
                name, df = "data of A with true beliefs", sim("A", biased_exp=False)
            elif op == "prepared A":
                name, df = "data of A", prepared("A")(W["A"].params_df, W["A"].spec)
            elif op == "prepared B":
                name, df = "data of B", prepared("B")(W["B"].params_df, W["B"].spec)
            elif op == "prepared A for A2":
                name, df = "data of A2", prepared("A")(W["A2"].params_df, W["A2"].spec)
            elif op == "A from files":
                name, df = "data of A", impl.simulate(paths[1], paths[0])
            out.observe(name, frame_digest(df))
            out.count("rows", len(df))
            last.append(df)
        if step == 0:
            out.observe("data of A2", frame_digest(sim("A2")))
        for n, w in W.items():
            spec, par, fs = before[n]
            out.check(w.spec == spec, "the model specification passed in is modified", after=op)
            out.check(par.equals(w.params_df) and list(par.index) == list(w.params_df.index), "the parameters passed in are modified", after=op)
            out.check(files(w.dir) == fs, "input files are modified or files are created beside them", after=op)
        out.check(set(os.listdir(home)) == set(), "files are created in the working directory", after=op)
        out.transitions += 1
    out.states += len({tuple(case["ops"][i: i + case["window"]]) for i in range(len(case["ops"]) - case["window"] + 1)})
    out.traces += 1
    os.chdir("/")
    for w in W.values():
        w.remove()
    out.sample = {"history": case["ops"][:6]}
