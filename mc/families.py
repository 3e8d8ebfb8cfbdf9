"""Bounded families of configurations shared by the checks."""
from mc import world

#: switches whose full product is always explored
SWITCHES = {
    "regime": ["elterngeld", "erziehungsgeld"],
    "splitting": [True, False],
    "integration": ["quadrature", "monte_carlo"],
    "elasticity": [1, 1.4],
    "grid": ["uniform5", "uneven4"],
}

#: long horizons, many ages and types: where small worlds have no room
LARGE = [
    {"T": 40, "child_age_max": 11, "last_birth": 24, "educ_years": [0, 3, 6],
     "init_exp_max": 4, "child_init_max": 6, "types": 4, "grid": "uniform13"},
    {"T": 40, "child_age_max": 10, "last_birth": 24, "educ_years": [0, 3, 6],
     "init_exp_max": 4, "child_init_max": 6, "types": 2, "grid": "uneven7",
     "regime": "erziehungsgeld", "splitting": False},
    {"T": 25, "child_age_max": 18, "last_birth": 24, "types": 12, "init_exp_max": 6,
     "educ_years": [0, 1, 2], "grid": "uniform3", "integration": "monte_carlo"},
    {"T": 130, "types": 1, "child_age_max": 1, "grid": "uniform2"},
    {"T": 3, "types": 1, "child_age_max": 26, "child_init_max": 26, "grid": "fine33", "ndraws": 40},
    {"T": 3, "types": 1, "child_age_max": 1, "grid": "fine101", "ndraws": 101, "integration": "monte_carlo"},
    {"T": 3, "types": 10, "init_exp_max": 12, "child_init_max": 3, "regime": "erziehungsgeld"},
]


def product(axes, base=None):
    import itertools

    names = list(axes)
    return [
        {**(base or {}), **dict(zip(names, vals))}
        for vals in itertools.product(*(axes[n] for n in names))
    ]


def dedupe(cfgs):
    import json

    seen, out = set(), []
    for c in cfgs:
        c = world.describe(c) if not isinstance(c, tuple) else c
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def solver_configs(tier):
    """deviation 1, all switch settings, pair covering; thorough: deviation 2, triple covering."""
    if tier == "quick":
        cfgs = world.deviations(1) + product(SWITCHES) + world.covering(2) + LARGE
    else:
        cfgs = (
            world.deviations(2)
            + product(SWITCHES)
            + [c for s in product(SWITCHES) for c in world.covering(2, base=s, pinned=tuple(SWITCHES))]
            + world.covering(3)
            + LARGE
            + [{**c, **d} for c in LARGE for d in world.deviations(1, pinned=tuple(LARGE[0]))]
        )
    return dedupe(cfgs)
