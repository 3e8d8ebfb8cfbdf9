"""What may depend on what: backward closure of a direct influence over the life-cycle graph."""
import numpy as np

REL = 1e-12


def grids(M):
    """Index arrays over (period, educ, lagged, type, age, partner); age is the age itself."""
    return np.meshgrid(np.arange(M.T), np.arange(M.E), np.arange(3), np.arange(M.K), M.ages, np.arange(2), indexing="ij")


def successors(M, law, mask_next, t):
    """Which states of period t reach ``mask_next`` (states of t+1) with positive probability, per choice.

    ``law`` = (births in t -> t+1, arrivals, separations) by education; returns (e,l,k,a,p,choice).
    """
    pb, pa, ps = law
    nxt = M.next_age(M.ages) + 1
    out = np.zeros(mask_next.shape + (3,), bool)
    for c in range(3):
        m = mask_next[:, c]  # (e, k, a, p)
        old, new = m[:, :, nxt, :], np.broadcast_to(m[:, :, 1:2, :], m.shape)
        b = pb[:, None, None, None]
        age = (old & (b < 1)) | (new & (b > 0))  # (e, k, a, p')
        single = (age[..., 0] & (pa < 1)[:, None, None]) | (age[..., 1] & (pa > 0)[:, None, None])
        couple = (age[..., 1] & (ps < 1)[:, None, None]) | (age[..., 0] & (ps > 0)[:, None, None])
        out[..., c] = np.stack([single, couple], axis=-1)[:, None]
    return out


def closure(M, direct, births=None):
    """(value mask (T,e,l,k,a,p), continuation mask (...,choice)) influenced by ``direct`` states.

    ``births``: probabilities by (period, education) for t -> t+1; by default a birth is possible
    if either the row of t or the row of t+1 allows it (the two sides of the code differ here).
    """
    T = M.T
    val = direct.copy()
    cont = np.zeros(direct.shape + (3,), bool)
    for t in reversed(range(T - 1)):
        if births is None:
            lo = np.minimum(M.p_child[t], M.p_child[t + 1])[: M.E]
            hi = np.maximum(M.p_child[t], M.p_child[t + 1])[: M.E]
            m = successors(M, (lo, M.p_arr[t], M.p_sep[t]), val[t + 1], t) | successors(
                M, (hi, M.p_arr[t], M.p_sep[t]), val[t + 1], t)
        else:
            m = successors(M, (births[t], M.p_arr[t], M.p_sep[t]), val[t + 1], t)
        cont[t] = m
        val[t] |= m.any(axis=-1)
    return val, cont


def changed(base, new):
    """Cells (states x columns) of two value tensors that differ; grid axis reduced."""
    with np.errstate(invalid="ignore"):
        d = np.abs(new - base) > REL * (1 + np.abs(base))
    d |= np.isnan(new) != np.isnan(base)
    return d.any(axis=-2)


def judge(out, M, base, new, direct, name, motion=False):
    """Report changes outside the closure of ``direct``; returns number of changed cells.

    ``motion``: the input also moves experience, so it enters the continuation of the direct states.
    """
    val, cont = closure(M, direct)
    if motion:
        cont = cont | direct[..., None]
    allowed = np.concatenate([cont, val[..., None]], axis=-1)
    d = changed(base, new)
    bad = d & ~allowed
    if bad.any():
        t, e, l, k, a, p, c = (int(x) for x in np.argwhere(bad)[0])
        out.fail(f"{name} changes a value it has no bearing on", period=t, education=e, last_choice=l, type=k,
                 child_age=int(M.ages[a]), partner=p, column=c, cells=int(bad.sum()))
    out.states += int(d.size)
    out.transitions += int((~allowed).sum())
    out.count("cells_changed", int(d.sum()))
    out.count("cells_required_equal", int((~allowed).sum()))
    return int(d.sum())
