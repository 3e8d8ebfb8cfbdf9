"""Probability tables become exactly the laws they state, for the periods and groups they name."""
import itertools

BOUNDS = (
    "every entry of every table for all horizons 1..9 (thorough 1..16) x education levels x last birth period x longer tables x initial "
    "maxima; every entry distinct, so each is traced to its place"
)
ASSUMPTIONS = ["tables are sorted by their index; the first share of an initial distribution is the remainder to one"]
TECHNIQUE = "exhaustive enumeration of table sizes with pairwise distinct entries, laws compared entry by entry"
LEVEL_NOTE = "Every entry of every law is compared for every size in the bound; no sampling."


def cases(tier):
    top = 9 if tier == "quick" else 16
    out = [{"what": "processes", "T": t, "E": e} for t in range(1, top + 1) for e in (1, 2, 3)]
    out += [{"what": "processes", "T": 140, "E": e, "lasts": [0, 130, 139]} for e in (1, 3)]
    out += [{"what": "initial", "E": e, "cmax": c} for e in (1, 2, 3) for c in range(-1, 7 if tier == "quick" else 12)]
    out += [{"what": "longer", "cfg": c} for c in ({}, {"T": 2, "educ_years": [0, 1]}, {"T": 4, "regime": "erziehungsgeld", "last_birth": 9})]
    return out


def run_case(case, out):
    {"processes": processes, "initial": initial, "longer": longer}[case["what"]](case, out)


def processes(case, out):
    import numpy as np
    from mc import impl, world

    T, E = case["T"], case["E"]
    for last, more, prob in itertools.product(case.get("lasts") or range(-1, T + 2), (0, 1, 5), ("generic", "zero", "one", "extreme")):
        if prob != "generic" and (more or last % 2):
            continue
        w = world.World({"T": T, "educ_years": list(range(E)), "types": 1, "last_birth": last, "prob": prob})
        tabs = world.World({"T": T + more, "educ_years": list(range(E)), "prob": prob}).tables
        w.tables.update({k: tabs[k] for k in ("child", "arrival", "separation")})
        w.write()
        spec = impl.read_model_spec_init(w.spec, w.params_df)
        pc, pp = np.asarray(impl.gen_prob_child_vector(spec)), np.asarray(impl.gen_prob_partner(spec))
        w.remove()
        out.check(pc.shape == (T, 3) and pp.shape == (T, E, 2, 2), "a law has the wrong size", child=list(pc.shape), partner=list(pp.shape))
        for t in range(T):
            for e in range(3):
                want = float(tabs["child"].iloc[:, 0][(t, e)]) if t <= last else 0.0
                out.check(pc[t, e] == want, "birth probability is not the tabulated one", period=t, education=e, got=float(pc[t, e]), want=want)
            for e in range(E):
                a, s = (float(tabs[k].iloc[:, 0][(t, e)]) for k in ("arrival", "separation"))
                out.close(pp[t, e], [[1 - a, a], [s, 1 - s]], "partner law is not the tabulated one", tol=1e-15)
        out.check((pc >= 0).all() and (pc <= 1).all() and (pp >= 0).all() and np.allclose(pp.sum(-1), 1), "a law is no probability law")
        out.states += pc.size + pp.size
        out.transitions += pc.size + pp.size
        out.traces += 1
    out.sample = {"T": T, "birth_law": pc[:2].round(3).tolist()}


def initial(case, out):
    import numpy as np
    from mc import impl, world

    E, cmax = case["E"], case["cmax"]
    for init, scale in itertools.product(range(0, 6), (1.0, 0.8)):
        w = world.World({"educ_years": list(range(E)), "types": 1, "child_init_max": cmax, "child_age_max": cmax + 2, "init_exp_max": init})
        for k in ("child_age", "pt", "ft"):
            w.tables[k] = w.tables[k] * scale  # shares that do not add up: the first one takes the remainder
        w.write()
        spec = impl.read_model_spec_init(w.spec, w.params_df)
        got = {
            "child_age": impl.gen_prob_child_init_age_vector(spec),
            "pt": impl.gen_prob_init_exp_component_vector(spec, spec.pt_exp_shares_file_name),
            "ft": impl.gen_prob_init_exp_component_vector(spec, spec.ft_exp_shares_file_name),
        }
        out.close(impl.gen_prob_educ_level_vector(spec), w.tables["educ"].iloc[:, 0].to_numpy(), "education shares are not the tabulated ones")
        out.close(np.asarray(impl.gen_prob_partner_present_vector(spec)), w.tables["partner"].iloc[:, 0].to_numpy(), "partner shares are not the tabulated ones")
        w.remove()
        for k, v in got.items():
            out.check(len(v) == E, f"initial distribution {k} misses an education level")
            for e in range(E):
                t = w.tables[k].iloc[:, 0].xs(e, level="educ_level").to_numpy()
                want = np.concatenate([[1 - t[1:].sum()], t[1:]])
                out.close(v[e], want, f"initial distribution {k} is not the tabulated one", tol=1e-14)
                out.close(sum(v[e]), 1.0, f"initial distribution {k} does not add up")
                out.states += len(t)
                out.transitions += len(t)
        try:
            from soepy.exogenous_processes.experience import gen_prob_init_exp_years_vector as total
        except ImportError:
            total = None
        if total:
            w.write()
            law = total(impl.read_model_spec_init(w.spec, w.params_df))
            w.remove()
            for e in range(E):
                want = np.zeros(2 * init + 1)
                for a, p in enumerate(got["pt"][e]):
                    for b, q in enumerate(got["ft"][e]):
                        want[a + b] += p * q
                if out.check(len(law[e]) == len(want), "total initial experience has the wrong range", got=len(law[e]), want=len(want)):
                    out.close(law[e], want, "total initial experience is not distributed as the sum of its parts", tol=1e-13)
                out.states += len(want)
        out.traces += 1
    out.sample = {"education_levels": E, "oldest_child_at_entry": cmax}


def longer(case, out):
    """What a table says beyond the horizon is never used."""
    from mc import impl, world

    w = world.World({**case["cfg"], "agents": 150}).write()
    base = impl.simulate(w.params_df, w.spec).reset_index()
    T = w.cfg["T"]
    w.remove()
    for more in (1, 2, 7):
        w = world.World({**case["cfg"], "agents": 150})
        tabs = world.World({**case["cfg"], "T": T + more}).tables
        w.tables.update({k: tabs[k] for k in ("child", "arrival", "separation")})
        w.write()
        got = impl.simulate(w.params_df, w.spec).reset_index()
        w.remove()
        if out.check(got.shape == base.shape, "rows beyond the horizon change the data"):
            out.close(got.to_numpy(float), base.to_numpy(float), "table rows beyond the horizon change the data", names="row,column")
        out.states += len(got)
        out.transitions += got.size
        out.traces += 1
    out.sample = {"rows": len(base)}
