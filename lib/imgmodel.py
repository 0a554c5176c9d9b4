"""Gridding and imaging from their definitions, in double precision (for I01, I02)."""
import numpy as np
F = np.float32
N1 = np.sqrt(2 / np.pi)


def kernel(x, dim):
    """Weights of a datum at fractional index x over a periodic axis, and a bound for the cells whose membership rounding decides."""
    lo, hi = int(np.floor(x - 3)), int(np.ceil(x + 3))
    j = np.arange(lo, hi + 1)
    w = np.zeros(dim)
    np.add.at(w, j % dim, np.exp(-2 * (x - j)**2) * N1)
    return w


SLOP = 1e-7     # exp(-2*3^2)*2/pi: the outermost cells may or may not take part


def grid(shape, res, u, v, d):
    out = np.zeros(shape, complex)
    for a, b, c in zip(u, v, d):
        out += np.outer(kernel(-b / res, shape[0]), kernel(a / res, shape[1])) * c
    return out


def degrid(uv, x, y):
    w = np.outer(kernel(x, uv.shape[0]), kernel(y, uv.shape[1]))
    return (w * uv).sum() / w.sum()


def lm(dim, res):
    """(L, M) of pixel [i, j] of an image with its center at [0, 0]: L falls along the second axis (east is left), M grows along the first."""
    k = np.arange(dim)
    k = np.where(k > dim // 2, k - dim, k)
    return np.broadcast_to(-k[None, :] / (dim * res), (dim, dim)), np.broadcast_to(k[:, None] / (dim * res), (dim, dim))


def roll(a, c):
    return np.roll(a, (-int(c[0]), -int(c[1])), (0, 1))
