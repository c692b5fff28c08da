"""C25: triangulations of point sets."""
import numpy as np
import scipy.spatial as ss
from vlib.core import check
from vlib.run import Case
from checks.geom_checks import rand_shape, Shape


def plane_set(rng, kind, big):
    m = int(rng.integers(3, big))
    if kind == 'general':
        p = rng.random((m, 2))
    elif kind == 'grid':        # many points on common circles
        n = rng.integers(2, 7, 2)
        p = np.stack(np.meshgrid(np.arange(n[0]), np.arange(n[1])), -1).reshape(-1, 2).astype(float)
    elif kind == 'mixed':
        n = rng.integers(2, 6, 2)
        p = np.stack(np.meshgrid(np.arange(n[0]), np.arange(n[1])), -1).reshape(-1, 2).astype(float)
        p = np.concatenate([p, rng.random((m, 2)) * n])
    elif kind == 'circle':
        t = np.sort(rng.random(m)) * 2 * np.pi
        p = np.stack([np.cos(t), np.sin(t)], 1)
        if m % 2:
            p = np.concatenate([p, [[0., 0.]]])
    else:                       # clusters
        p = np.concatenate([rng.normal(size=(m, 2)) * s + rng.normal(size=2) * 3 for s in (1., .03)])
    p = p[rng.permutation(len(p))]
    p *= 10 ** rng.uniform(-3, 3)
    return p + rng.normal(size=2) * 10 ** rng.uniform(-2, 1) * (rng.random() < .5) * np.ptp(p, axis=0).max()


def space_set(rng, kind, big):
    m = int(rng.integers(4, big))
    if kind == 'general':
        p = rng.random((m, 3))
    elif kind == 'sphere':
        p = rng.normal(size=(m, 3))
        p /= np.linalg.norm(p, axis=1)[:, None]
        p *= rng.uniform(.3, 3, 3)
    elif kind == 'box':         # points in the faces of the hull
        n = rng.integers(2, 4, 3)
        p = np.stack(np.meshgrid(*[np.arange(k) for k in n]), -1).reshape(-1, 3).astype(float)
    else:                       # points on a sphere and points inside
        p = rng.normal(size=(2 * m, 3))
        p /= np.linalg.norm(p, axis=1)[:, None]
        p[m:] *= rng.random((m, 1))
    q = np.linalg.qr(rng.normal(size=(3, 3)))[0] if rng.random() < .5 and kind != 'box' else np.eye(3)
    p = p[rng.permutation(len(p))] @ q
    if kind == 'box':   # exact coordinates: the bundled qhull refuses some initial simplices of coplanar points that carry rounding
        return p * 2. ** rng.integers(-6, 6)
    p *= 10 ** rng.uniform(-3, 3)
    return p + rng.normal(size=3) * 10 ** rng.uniform(-2, 1) * (rng.random() < .5) * np.ptp(p, axis=0).max()


def judge_plane(p, t, distinct=True):
    m, L = len(p), np.ptp(p, axis=0).max() + abs(p).max() * 1e-3
    if not len(t):
        return ('empty', 'no triangle')
    if t.min() < 0 or t.max() >= m:
        return ('ids', 'vertex number outside 0..%d' % (m - 1))
    if (t[:, [0]] == t[:, 1:]).any() or (t[:, 1] == t[:, 2]).any():
        return ('degenerate', 'a triangle repeats a vertex: %s' % t[[len(set(x)) < 3 for x in t.tolist()]][0].tolist())
    a, b, c = p[t[:, 0]], p[t[:, 1]], p[t[:, 2]]
    A = .5 * ((b - a)[:, 0] * (c - a)[:, 1] - (b - a)[:, 1] * (c - a)[:, 0])
    hull = ss.ConvexHull((p - p.mean(0)) / L).volume * L * L
    if abs(abs(A).sum() - hull) > 1e-9 * L * L:
        return ('area', 'the triangles cover %.12g, the convex hull of the points has %.12g' % (abs(A).sum(), hull))
    s = np.sort(t, 1)
    if len(np.unique(s, axis=0)) != len(s):
        return ('twice', 'a triangle is returned twice')
    e = np.concatenate([s[:, [0, 1]], s[:, [0, 2]], s[:, [1, 2]]])
    k = np.unique(e, axis=0, return_counts=True)[1]
    if k.max() > 2:
        return ('edges', 'an edge belongs to %d triangles' % k.max())
    if distinct and len(np.unique(t)) != m:
        return ('vertices', '%d of %d points are vertices of the triangulation' % (len(np.unique(t)), m))
    # empty circumcircles
    for i in np.flatnonzero(abs(A) > 1e-7 * L * L):
        d = 2 * ((b - a)[i, 0] * (c - a)[i, 1] - (b - a)[i, 1] * (c - a)[i, 0])
        u, v = (b - a)[i], (c - a)[i]
        o = np.array([v[1] * (u @ u) - u[1] * (v @ v), u[0] * (v @ v) - v[0] * (u @ u)]) / d
        # power of every point with respect to the circle; rounding grows with the flatness of the triangle
        power = ((p - a[i] - o) ** 2).sum(1) - o @ o
        if (power < -1e-11 * (L + abs(p).max()) ** 2 * L * L / abs(A[i])).any():
            return ('circle', 'the circumcircle of triangle %s contains point %d (power %g, radius %g)' % (t[i].tolist(), np.argmin(power), power.min(), np.hypot(*o)))
    return None


def judge_space(p, t, volume, manifold=True):
    m = len(p)
    c = p.mean(0)
    L = np.ptp(p, axis=0).max()
    if not len(t):
        return ('empty', 'no triangle')
    if t.min() < 0 or t.max() >= m:
        return ('ids', 'vertex number outside 0..%d' % (m - 1))
    if (t[:, [0]] == t[:, 1:]).any() or (t[:, 1] == t[:, 2]).any():
        return ('degenerate', 'a triangle repeats a vertex')
    q = (p - c) / L
    u, v, w = q[t[:, 0]], q[t[:, 1]], q[t[:, 2]]
    V = abs(np.einsum('ij,ij->i', u, np.cross(v, w))).sum() / 6
    if abs(V - volume / L ** 3) > (1e-9 if manifold else 1e-6):
        return ('volume', 'the surface encloses %.12g, the convex hull of the points %.12g' % (V * L ** 3, volume))
    n = np.cross(v - u, w - u)
    s = np.linalg.norm(n, axis=1)
    big = s > 1e-6
    n = n[big] / s[big, None]
    h = (q[None] - u[big, None]) @ n[:, :, None]
    h = h[..., 0]
    tol = 1e-8 if manifold else 1e-5
    if ((h.max(1) > tol) & (h.min(1) < -tol)).any():
        i = np.flatnonzero(big)[int(np.argmax((h.max(1) > tol) & (h.min(1) < -tol)))]
        return ('side', 'points lie on both sides of triangle %s' % t[i].tolist())
    if manifold:
        s = np.sort(t, 1)
        e = np.concatenate([s[:, [0, 1]], s[:, [0, 2]], s[:, [1, 2]]])
        k = np.unique(e, axis=0, return_counts=True)[1]
        if (k != 2).any():
            return ('edges', 'the surface is not closed: an edge belongs to %d triangles' % k[k != 2][0])
    return None


@check('C25', 'sets of points of the plane (general position, grids, circles, clusters, mixed) and of space (general position, ellipsoids, boxes with points in their faces, balls), any scale, offset and order, and the sampled '
       'surfaces of random bodies, triangulated by the library; areas, volumes, closedness and empty circumcircles are computed from the returned triangles; non-trivial = one distinct set of points',
       ['at least three points not on one line, four not in one plane', 'exponents of triangulated bodies between 2 and 7 (convex)'])
def c25(ctx):
    rng = ctx.rng
    N = ctx.k(1000, 10000)
    for d, make, kinds in ((2, plane_set, ('general', 'grid', 'mixed', 'circle', 'cluster')), (3, space_set, ('general', 'sphere', 'box', 'shell'))):
        for b in range(0, N, 50):
            sets = [(kinds[(b + i) % len(kinds)], make(rng, kinds[(b + i) % len(kinds)], 12 if i % 3 else ctx.k(60, 250))) for i in range(50)]

            def j(r, sets=sets, d=d):
                out, at, o = [], 0, r.out['o'].reshape(-1, 3).astype(int)
                for (kind, p), k in zip(sets, r.ev('tri')['n']):
                    t = o[at:at + int(k)]
                    at += int(k)
                    ctx.seen(d, p.tobytes())
                    ctx.count('sets_%s_%dD' % (kind, d))
                    ctx.count('triangles', int(k))
                    e = judge_plane(p, t) if d == 2 else judge_space(p, t, ss.ConvexHull((p - p.mean(0)) / np.ptp(p, axis=0).max()).volume * np.ptp(p, axis=0).max() ** 3)
                    if e:
                        out.append((e[0], '%s (%d %s points of a %d-D set, first %s)' % (e[1], len(p), kind, d, p[:4].tolist())))
                return out
            ctx.add('tri%d' % d, Case('points %dD' % d, ['tri in=@i counts=%s out=@o' % ','.join(str(len(s[1])) for s in sets)], {'i': np.concatenate([s[1] for s in sets])}, ['o'], j))
    rows = []
    while len(rows) < ctx.k(60, 500):
        s = rand_shape(rng, 3)
        q = Shape(s, 3)
        if 2 <= q.n <= 7 and 2 <= q.e <= 7:
            rows.append(np.concatenate([s, rng.uniform(.15, .4, 2)]))
    rows = np.array(rows)

    def sj(r):
        out, at, pt, o, y = [], 0, 0, r.out['o'].reshape(-1, 3).astype(int), r.out['p'].reshape(-1, 3)
        for row, k, m in zip(rows, r.ev('trisurf')['n'], r.ev('trisurf')['m']):
            t, p = o[at:at + int(k)], y[pt:pt + int(m)]
            at += int(k)
            pt += int(m)
            ctx.seen('body', row.tobytes())
            ctx.count('bodies')
            L = np.ptp(p, axis=0).max()
            e = judge_space(p, t, ss.ConvexHull((p - p.mean(0)) / L).volume * L ** 3, False)
            if e:
                out.append((e[0], '%s (body %s)' % (e[1], row.tolist())))
        return out
    ctx.add('tri3', Case('bodies', ['trisurf in=@i out=@o pts=@p'], {'i': rows}, ['o', 'p'], sj))
    ctx.samples.append('points %s' % sets[0][1][:3].tolist())
    ctx.go(chunk=2)
