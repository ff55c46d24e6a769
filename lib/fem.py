"""Independent oracles: exact Q1 shape functions and integrals (rational arithmetic)."""
from fractions import Fraction as Fr
from itertools import product
from algebra import *


# 1D polynomials as coefficient lists
def pmul(a, b):
    r = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def pint(a, lo, hi):
    return sum(c * (Fr(hi) ** (k + 1) - Fr(lo) ** (k + 1)) / (k + 1) for k, c in enumerate(a))


def pder(a):
    return [k * c for k, c in enumerate(a)][1:] or [Fr(0)]


L = ([Fr(1), Fr(-1)], [Fr(0), Fr(1)])          # 1-x, x on [0,1]


def corners(d):
    """local numbering: x fastest"""
    return [tuple((k >> a) & 1 for a in range(d)) for k in range(2 ** d)]


def nodes3(d):
    return [tuple((k // 3 ** a) % 3 for a in range(d)) for k in range(3 ** d)]


def q1_int(d, a, b, da, db):
    """int over the unit cell of d_da phi_a * d_db phi_b (None: no derivative)"""
    r = Fr(1)
    for ax in range(d):
        f, g = L[a[ax]], L[b[ax]]
        if da == ax:
            f = pder(f)
        if db == ax:
            g = pder(g)
        r *= pint(pmul(f, g), 0, 1)
    return r


def hprod(h, d):
    r = ONE
    for k in range(d):
        r = r * h[k]
    return r


def stiff(d, a, b, da, db, h):
    """int_K d_da phi_a d_db phi_b on the cell of sides h (Poly)"""
    r = hprod(h, d).scale(q1_int(d, a, b, da, db))
    if da is not None:
        r = r * inv(h[da])
    if db is not None:
        r = r * inv(h[db])
    return r


def laplacian(d, h):
    c = corners(d)
    return [[sum((stiff(d, a, b, k, k, h) for k in range(d)), ZERO) for b in c] for a in c]


def mass(d, h):
    c = corners(d)
    return [[stiff(d, a, b, None, None, h) for b in c] for a in c]


def strain(d, h):
    """int 2 e(u):e(v), test v = phi_a e_i (row), trial u = phi_b e_j (column)"""
    c = corners(d)
    lap = laplacian(d, h)
    return [[[[(lap[ia][ib] if i == j else ZERO) + stiff(d, a, b, j, i, h) for j in range(d)] for i in range(d)] for ib, b in enumerate(c)] for ia, a in enumerate(c)]


def _hat(n, cell):
    """1D hat function of node n in {0,1,2} on sub-interval `cell`, as polynomial in x in [cell,cell+1]"""
    # value 1 at n, linear on [cell, cell+1]
    v0 = Fr(1) if n == cell else Fr(0)
    v1 = Fr(1) if n == cell + 1 else Fr(0)
    return [v0 - (v1 - v0) * cell, v1 - v0]


def pressure(d, h):
    """int psi_i d_k phi_j : psi Q1 on the cell of side 2h, phi Q1 on the 2^d sub-cells of side h"""
    out = []
    H = ([Fr(1), Fr(-1, 2)], [Fr(0), Fr(1, 2)])
    for i in corners(d):
        row = []
        for j in nodes3(d):
            ent = []
            for k in range(d):
                r = Fr(1)
                for ax in range(d):
                    s = Fr(0)
                    for cell in (0, 1):
                        p = _hat(j[ax], cell)
                        if ax == k:
                            p = pder(p)
                        s += pint(pmul(H[i[ax]], p), cell, cell + 1)
                    r *= s
                ent.append((hprod(h, d) * inv(h[k])).scale(r))
            row.append(ent)
        out.append(row)
    return out


def shape(d, k, x, h):
    """Q1 shape function of local corner k on [0,h]^d at x (Polys)"""
    c = corners(d)[k]
    r = ONE
    for a in range(d):
        t = div(x[a], h[a])
        r = r * (t if c[a] else ONE - t)
    return r
