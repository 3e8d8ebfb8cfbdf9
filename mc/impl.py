"""Thin driver of the real code: everything here calls soepy's public functions.

Only functions that the project's own test-suite imports are used, so that internal
refactorings do not disturb the checks.
"""
import os

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault(
    "XLA_FLAGS",
    "--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false "
    "intra_op_parallelism_threads=1",
)

import warnings

warnings.filterwarnings("ignore")

import jax

jax.config.update("jax_enable_x64", True)

import numpy as np
import pandas as pd
from soepy.exogenous_processes.children import gen_prob_child_init_age_vector
from soepy.exogenous_processes.children import gen_prob_child_vector
from soepy.exogenous_processes.education import gen_prob_educ_level_vector
from soepy.exogenous_processes.experience import gen_prob_init_exp_component_vector
from soepy.exogenous_processes.partner import gen_prob_partner
from soepy.exogenous_processes.partner import gen_prob_partner_present_vector
from soepy.pre_processing.model_processing import read_model_params_init
from soepy.pre_processing.model_processing import read_model_spec_init
from soepy.simulate.simulate_auxiliary import pyth_simulate
from soepy.simulate.simulate_python import get_simulate_func
from soepy.simulate.simulate_python import simulate
from soepy.solve.create_state_space import create_state_space_objects
from soepy.solve.solve_python import pyth_solve

try:
    from soepy.solve.solve_python import get_solve_function
except ImportError:
    get_solve_function = None
else:
    # used only to solve faster; with another signature, every solution is made afresh
    import inspect

    if list(inspect.signature(get_solve_function).parameters) != [
        "states", "covariates", "child_state_indexes", "model_spec", "prob_child", "prob_partner", "biased_exp"
    ]:
        get_solve_function = None

NPF = ("N", "P", "F")


class Impl:
    """The implementation's view of one world."""

    def __init__(self, world, params_df=None, spec=None):
        self.world = world
        if world.dir is None:
            world.write()
        self.params_df = world.params_df if params_df is None else params_df
        spec = world.spec if spec is None else spec
        _, self.params = read_model_params_init(self.params_df)
        self.spec = read_model_spec_init(spec, self.params_df)
        self.probs = {
            "prob_educ_level": gen_prob_educ_level_vector(self.spec),
            "prob_child_age": gen_prob_child_init_age_vector(self.spec),
            "prob_partner_present": gen_prob_partner_present_vector(self.spec),
            "prob_exp_pt": gen_prob_init_exp_component_vector(
                self.spec, self.spec.pt_exp_shares_file_name
            ),
            "prob_exp_ft": gen_prob_init_exp_component_vector(
                self.spec, self.spec.ft_exp_shares_file_name
            ),
            "prob_child": gen_prob_child_vector(self.spec),
            "prob_partner": gen_prob_partner(self.spec),
        }
        (
            self.states,
            self.indexer,
            self.covariates,
            self.age_rule,
            self.child_idx,
        ) = create_state_space_objects(self.spec)
        self._solved = {}
        self._prepared = {}

    # ---- layout ---------------------------------------------------------------------
    def key(self, rows=slice(None)):
        s = np.asarray(self.states)[rows]
        return s[:, 0], s[:, 1], s[:, 2], s[:, 3], s[:, 4] + 1, s[:, 5]

    def tensor(self, arr):
        """Per-state array -> tensor over (period, educ, lagged, type, age + 1, partner)."""
        arr = np.asarray(arr, dtype=float)
        shape = (
            self.spec.num_periods,
            self.spec.num_educ_levels,
            3,
            self.spec.num_types,
            self.spec.child_age_max + 2,
            2,
        )
        out = np.full(shape + arr.shape[1:], np.nan)
        out[self.key()] = arr
        return out

    # ---- run ------------------------------------------------------------------------
    def solve(self, biased, params=None, probs=None):
        key = biased if params is None and probs is None else None
        if key in self._solved:
            return self._solved[key]
        p = {**self.probs, **(probs or {})}
        if params is not None and probs is None and get_solve_function is not None:
            # many parameter vectors on one prepared solution (as the prepared simulation does)
            if biased not in self._prepared:
                self._prepared[biased] = get_solve_function(
                    self.states,
                    self.covariates,
                    self.child_idx,
                    self.spec,
                    p["prob_child"],
                    p["prob_partner"],
                    biased,
                )
            # one tuple class for all of them, so that the compiled solution is reused
            ncu, emaxs = self._prepared[biased](self.params._replace(**params._asdict()))
            return np.array(ncu), np.array(emaxs)
        ncu, emaxs = pyth_solve(
            self.states,
            self.covariates,
            self.child_idx,
            self.params if params is None else params,
            self.spec,
            p["prob_child"],
            p["prob_partner"],
            biased,
        )
        out = np.array(ncu), np.array(emaxs)
        if key is not None:
            self._solved[key] = out
        return out

    def simulate(
        self, ncu, emaxs, sparse=False, biased=False, spec=None, params=None, probs=None
    ):
        p = {**self.probs, **(probs or {})}
        return pyth_simulate(
            model_params=self.params if params is None else params,
            model_spec=self.spec if spec is None else spec,
            states=self.states,
            indexer=self.indexer,
            emaxs=emaxs,
            covariates=self.covariates,
            non_consumption_utilities=ncu,
            child_age_update_rule=self.age_rule,
            biased_exp=biased,
            data_sparse=sparse,
            **p,
        )


def partial_simulation(m, biased, sparse):
    """The argument-by-argument simulation function filled in for model ``m`` (None if there is none)."""
    import functools
    import inspect

    try:
        from soepy.simulate.simulate_python import partiable_simulate
    except ImportError:
        return None
    if get_solve_function is None:
        return None
    have = {
        "solve_func": get_solve_function(
            states=m.states, covariates=m.covariates, child_state_indexes=m.child_idx, model_spec=m.spec,
            prob_child=m.probs["prob_child"], prob_partner=m.probs["prob_partner"], biased_exp=biased,
        ),
        "states": m.states, "indexer": m.indexer, "covariates": m.covariates, "child_age_update_rule": m.age_rule,
        "data_sparse": sparse, "prob_exp_years": None, **m.probs,
    }
    names = inspect.signature(partiable_simulate).parameters
    last = {"model_params_init_file_name", "model_spec_init_file_name"}
    if not last <= set(names) or set(names) - last - set(have):
        return None  # another signature: not the function meant here
    return functools.partial(partiable_simulate, **{k: v for k, v in have.items() if k in names})


def by_agent(df):
    """Simulated frame as {column: 2-D array over (period, agent)} plus presence mask."""
    df = df.reset_index() if "Identifier" not in df.columns else df
    T = int(df["Period"].max()) + 1 if len(df) else 0
    return df.sort_values(["Identifier", "Period"], kind="stable").reset_index(drop=True), T
