"""Quadrat workloads: event sets, grids and their independent tessellations."""

import math
from fractions import Fraction

import numpy as np

from pv import gen
from pv.core import Skip


def events(mon, rng, n=None, lattice=None):
    n = n or gen.now_and_then(rng, mon, rng.choice([3, 5, 10, 30, 100, 300], p=[0.1, 0.15, 0.25, 0.25, 0.2, 0.05]), 3000, 0.01)
    k = int(rng.integers(0, 4)) if lattice is None else (0 if lattice else 3)
    if k == 0:
        # whole coordinates: many events exactly on cell edges
        m = int(rng.integers(2, 13))
        p = rng.integers(0, m + 1, (n, 2)).astype(float)
        p[:2] = [[0, 0], [m, m]]
        if rng.random() < 0.5:
            p = p * float(rng.choice([0.5, 2, 10])) + rng.integers(-5, 5, 2)
        mon.feature("edge-aligned")
        mon.fp(p)
    elif k == 1:
        m = int(rng.integers(2, 13))
        p = rng.integers(0, m + 1, (n, 2)) * 0.1 + rng.choice([0, 0.3, -7.7])
        mon.feature("decimal lattice")
        mon.fp(p)
    else:
        p = gen.points(rng, n, mon=mon)
    ext = np.ptp(p, axis=0)
    if ext.min() <= 1e-3 * ext.max():
        raise Skip
    return p


def rectangles(p, nx, ny, w=None, h=None):
    """cells by identifier: bounds"""
    x0, y0 = p.min(axis=0)
    rx, ry = np.ptp(p, axis=0)
    w = w or rx / nx
    h = h or ry / ny
    return {
        i * nx + j: (x0 + j * w, y0 + i * h, x0 + (j + 1) * w, y0 + (i + 1) * h)
        for i in range(ny)
        for j in range(nx)
    }


def cover(extent, size):
    """numbers of cells of a size that cover an extent (two if rounding may decide)"""
    q = Fraction(float(extent)) / Fraction(float(size))
    if q.denominator == 1 and q > 0:
        # the quotient is exact in floating point as well
        return {int(q)}
    q = float(q)
    return {max(1, math.ceil(q - 1e-9)), max(1, math.ceil(q + 1e-9)) if abs(q - round(q)) < 1e-9 else max(1, math.ceil(q))}


def hex_distance(p, c, lh):
    """how far events are outside of the hexagon around a centre (pointing sideways)"""
    d = np.abs(p - c)
    s = math.sqrt(3) / 2
    # half planes of the right upper quarter
    return np.maximum(d[..., 1] - lh * s, s * d[..., 0] + 0.5 * d[..., 1] - lh * s)
