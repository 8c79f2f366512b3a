"""Exact imaginary-time evolution of commuting (diagonal) Ising models from product
states: every bond gate is diagonal with operator rank 2, so a bond dimension of 2
represents the evolved state exactly."""
import numpy as np

from . import work


class Cell:
    def __init__(self, nx, ny):
        self.nx, self.ny = nx, ny


def bonds(c):
    return work.bonds_of(Cell(c["nx"], c["ny"]))


def product(c, start, sites=None):
    """Site tensors exp(-sum_b n_b tau h_b)|start>: sites maps (s1, s2, k) -> n_b * tau * diagonal of h_b."""
    D, p = c["D"], c.get("phys", 2)
    legs = {}
    for b in bonds(c):
        s1, s2, k = b
        d = (sites or {}).get(b)
        if d is None:
            X = Y = np.ones((p, 1))
        else:
            u, s, v = np.linalg.svd(np.exp(-np.asarray(d).reshape(p, p)))
            r = max(1, int((s > 1e-15 * s[0]).sum()))
            X, Y = (u * np.sqrt(s))[:, :r], (v.T * np.sqrt(s))[:, :r]
        l1, l2 = (2, 0) if k == 2 else (1, 3)
        legs[(s1, l1)], legs[(s2, l2)] = X, Y
    out = {}
    for x in range(c["nx"]):
        for y in range(c["ny"]):
            f = [np.pad(legs[((x, y), j)], ((0, 0), (0, D - legs[((x, y), j)].shape[1]))) for j in range(4)]
            a = np.einsum("pl,pu,pr,pd,p->lurdp", *f, start((x, y)))
            out[(x, y)] = a / np.linalg.norm(a)
    return out


def evolved(c, spec, applied, tau):
    """State after applying the gate of bond b applied[b] times; a gate carries a quarter
    of the terms of its two sites."""
    d = {b: n * tau * np.diag(work.bond_term(spec, b)) for b, n in applied.items() if n}
    w = {}
    for (s1, s2, _), n in applied.items():
        for s in (s1, s2):
            w[s] = w.get(s, 0) + n / 4

    def start(s):
        v, h = work.start_state(spec, s), work.site_term(spec, s)
        return v if h is None else np.exp(-w.get(s, 0) * tau * np.diag(h)) * v
    return product(c, start, d)


def tensors(ip):
    return {s: ip[s]["A"].detach().double().numpy().copy() for s in work.sites_of(ip)}
