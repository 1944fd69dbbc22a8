"""Independent model of the cubed sphere used by the oracles: gnomonic panels, tiles, edges, tangent bases.

Nothing here is taken from /repo: panel p maps the tangents (X, Y) of its two angular coordinates to a direction in space;
tiles are numbered panel by panel, row by row (south to north), west to east."""

import functools
import math

import numpy

S, N, W, E = 0, 1, 2, 3

PANEL = [
    lambda X, Y, o: (o, X, Y),
    lambda X, Y, o: (-X, o, Y),
    lambda X, Y, o: (-o, -X, Y),
    lambda X, Y, o: (X, -o, Y),
    lambda X, Y, o: (-Y, X, o),
    lambda X, Y, o: (Y, X, -o),
]


def direction(p, X, Y):
    o = numpy.ones_like(X)
    v = numpy.stack(PANEL[p](X, Y, o), axis=-1)
    return v / numpy.linalg.norm(v, axis=-1, keepdims=True)


def basis(p, X, Y):
    """Tangent vectors with respect to the angular coordinates (X = tan x1, Y = tan x2): arrays (..., 3)."""
    o = numpy.ones_like(X)
    z = numpy.zeros_like(X)
    v = numpy.stack(PANEL[p](X, Y, o), axis=-1)
    dX = numpy.stack(PANEL[p](o, z, z), axis=-1)
    dY = numpy.stack(PANEL[p](z, o, z), axis=-1)
    nrm = numpy.linalg.norm(v, axis=-1, keepdims=True)
    r = v / nrm

    def proj(d):
        return (d - r * numpy.sum(r * d, axis=-1, keepdims=True)) / nrm

    return proj(dX) * (1 + X**2)[..., None], proj(dY) * (1 + Y**2)[..., None]


def line(side, k, nelem, pts):
    """Angular coordinates of the points of one tile along one direction; k = tile row/col, `pts` in [-1, 1]."""
    width = (math.pi / 2) / (side * nelem)
    lo = -math.pi / 4 + k * width * nelem
    return numpy.array([lo + width * (e + 0.5 * (1 + q)) for e in range(nelem) for q in pts])


def vorticity(u1, u2, ne, ns, a):
    """Relative vorticity (1/s) at the points (6, y, x) of contravariant components given for elements of width 2."""
    q, _ = numpy.polynomial.legendre.leggauss(ns)
    D = numpy.array([[numpy.polynomial.polynomial.polyval(x, numpy.polynomial.polynomial.polyder(_lagrange(q, j))) for j in range(ns)] for x in q])
    x = line(1, 0, ne, q)
    X, Y = numpy.meshgrid(numpy.tan(x), numpy.tan(x))
    h = (math.pi / 2) / ne / 2
    d2 = 1 + X**2 + Y**2
    area = a * a * (1 + X**2) * (1 + Y**2) / d2**1.5 * h * h
    g = a * a * h * h * (1 + X**2) * (1 + Y**2) / d2**2
    c1 = g * ((1 + X**2) * u1 - X * Y * u2)
    c2 = g * (-X * Y * u1 + (1 + Y**2) * u2)
    e = (6, ne, ns, ne, ns)
    dx = numpy.einsum("pq,ajyiq->ajyip", D, c2.reshape(e)).reshape(c2.shape)
    dy = numpy.einsum("yz,ajzip->ajyip", D, c1.reshape(e)).reshape(c1.shape)
    return (dx - dy) / area


def _lagrange(q, j):
    p = numpy.array([1.0])
    for k, x in enumerate(q):
        if k != j:
            p = numpy.polynomial.polynomial.polymul(p, numpy.array([-x, 1.0]) / (q[j] - x))
    return p


@functools.lru_cache(maxsize=64)
def edges(nproc, nelem, npts):
    """For every tile and side: (X, Y) along the edge in increasing own coordinate, and the (tile, side, order) of the neighbour."""
    side = int(round(math.sqrt(nproc // 6)))
    q, _ = numpy.polynomial.legendre.leggauss(npts)
    out = {}
    keys = {}
    for t in range(nproc):
        p, rest = divmod(t, side * side)
        row, col = divmod(rest, side)
        xs, ys = line(side, col, nelem, q), line(side, row, nelem, q)
        width = (math.pi / 2) / side
        x0, x1 = -math.pi / 4 + col * width, -math.pi / 4 + (col + 1) * width
        y0, y1 = -math.pi / 4 + row * width, -math.pi / 4 + (row + 1) * width
        for s, (a, b) in enumerate([(xs, ys * 0 + y0), (xs, ys * 0 + y1), (xs * 0 + x0, ys), (xs * 0 + x1, ys)]):
            X, Y = numpy.tan(a), numpy.tan(b)
            d = direction(p, X, Y)
            ids = [tuple(int(round(c * 1e7)) for c in v) for v in d]
            out[t, s] = (p, X, Y, d)
            keys.setdefault(frozenset(_near(ids)), []).append((t, s))
    # match edges: same set of points
    nb = {}
    ks = list(out)
    mid = {k: out[k][3].mean(axis=0) for k in ks}
    arr = numpy.array([mid[k] for k in ks])
    for i, k in enumerate(ks):
        dist = numpy.linalg.norm(arr - arr[i], axis=1)
        dist[i] = 9
        j = int(numpy.argmin(dist))
        assert dist[j] < 1e-9, (k, dist[j])
        o = out[ks[j]][3]
        m = out[k][3]
        perm = [int(numpy.argmin(numpy.linalg.norm(o - v, axis=1))) for v in m]
        assert sorted(perm) == list(range(len(m)))
        nb[k] = (ks[j], numpy.array(perm))
    return out, nb


def _near(ids):
    return ids


def convert(kind, src, dst, a):
    """Express components `a` (ncomp, ..., L), given in the coordinates of edge src=(p, X, Y) at L points, in those of dst.

    The two edges list the same points in the same order."""
    e1, e2 = basis(src[0], src[1], src[2])
    f1, f2 = basis(dst[0], dst[1], dst[2])
    dot = lambda u, v: numpy.sum(u * v, axis=-1)
    if kind == "contra":
        v = a[0][..., None] * e1 + a[1][..., None] * e2
        g11, g12, g22 = dot(f1, f1), dot(f1, f2), dot(f2, f2)
        c1, c2 = dot(v, f1), dot(v, f2)
        det = g11 * g22 - g12 * g12
        b = [(c1 * g22 - c2 * g12) / det, (c2 * g11 - c1 * g12) / det]
    else:
        g11, g12, g22 = dot(e1, e1), dot(e1, e2), dot(e2, e2)
        det = g11 * g22 - g12 * g12
        u1 = (a[0] * g22 - a[1] * g12) / det
        u2 = (a[1] * g11 - a[0] * g12) / det
        v = u1[..., None] * e1 + u2[..., None] * e2
        b = [dot(v, f1), dot(v, f2)]
    if len(a) == 3:
        b.append(a[2])
    return numpy.stack(b)
