import itertools
import numpy as np, scipy.sparse as sp
from vlib.core import check
from vlib.run import Case
from vlib.fem import Ref
from checks.fem_checks import (rand_grid, mesh_line, vectors, compare, describe, rand_poly, poly_line, poly_eval, rand_bc, bcarg)

NP2 = [1, 2, 3, 4, 6]
NP3 = [1, 2, 4]


def fmt(v):
    return ','.join(repr(float(x)) for x in v)


# ---------------------------------------------------------------- workload generation
_previous = {}


def similar_parts(rng, f, old, rmin):
    """the particles of the previous problem with one of their attributes changed"""
    d = f.dim
    parts = [dict(p) for p in old]
    p = parts[int(rng.integers(len(parts)))]
    k = int(rng.integers(7))
    if k == 0:
        p['v'] = rng.normal(size=d)
    elif k == 1:
        p['w'] = rng.normal(size=1 if d == 2 else 3)
    elif k == 2:
        p['f'], p['rho'] = rng.normal(size=d) * 10, float(rng.uniform(.1, 3))
    elif k == 3:
        p['c'] = p['c'] + rng.normal(size=d) * f.h
    elif k == 4:
        p['r'] *= float(rng.uniform(.6, 1.3))
    elif k == 5:
        parts = parts[1:] + parts[:1]
    hm = max(f.h)
    if any(p['r'] < .5 * rmin * hm or (p['c'] - p['r'] < 1e-3 * np.array(f.h)).any() or (p['c'] + p['r'] > np.array(f.L) - 1e-3 * np.array(f.h)).any() for p in parts):
        return None
    if any(np.linalg.norm(p['c'] - q['c']) < p['r'] + q['r'] + 1e-6 * hm for p, q in itertools.combinations(parts, 2)):
        return None
    return parts


def rand_parts(rng, f, nmax=4, rmin=.6, none=0.):
    """disjoint discs/balls inside the box; random real parameters or 'round' ones (grid-aligned centres and radii); `none`: probability of no particle at all"""
    if rng.random() < none:
        return []
    key = (id(rng), f.dim, nmax, rmin)
    parts = similar_parts(rng, f, _previous[key], rmin) if key in _previous and rng.random() < .4 else None
    if parts is None:
        parts = fresh_parts(rng, f, nmax, rmin)
    _previous[key] = parts
    return [dict(p) for p in parts]


def fresh_parts(rng, f, nmax, rmin):
    d = f.dim
    parts = []
    want = int(rng.integers(1, nmax + 1))
    crowd = nmax >= 4 and rng.random() < .12     # many small particles
    if crowd:
        want = int(rng.integers(5, 14))
    for _ in range(400 if crowd else 200):
        if len(parts) >= want:
            break
        hm = max(f.h)
        rmax = min(min(f.L) / 2 * .98, hm * (rng.uniform(1, 2) if crowd else rng.uniform(1, 7)))
        r = float(rng.uniform(min(rmin * hm, rmax * .5), rmax))
        c = np.array([rng.uniform(r, L - r) if L > 2 * r else L / 2 for L in f.L])
        if rng.random() < .25:   # aligned with the mesh: points on the surface up to rounding
            k = [int(round(c[i] / f.h[i])) for i in range(d)]
            c = np.array([k[i] * f.h[i] for i in range(d)])
            m = int(max(1, round(r / f.h[0])))
            r = float(m * f.h[0])
        if any(c[i] - r < 1e-3 * f.h[i] or c[i] + r > f.L[i] - 1e-3 * f.h[i] for i in range(d)):
            continue
        if any(np.linalg.norm(c - q['c']) < r + q['r'] + 1e-6 * hm for q in parts):
            continue
        parts.append(dict(c=c, r=r, v=rng.normal(size=d), w=rng.normal(size=1 if d == 2 else 3), f=rng.normal(size=d) * 10, rho=float(rng.uniform(.1, 3))))
    if not parts:
        r = min(f.L) * .3
        parts.append(dict(c=np.array([L * .5 for L in f.L]) + 1e-3 * min(f.L), r=r, v=rng.normal(size=d), w=rng.normal(size=1 if d == 2 else 3), f=rng.normal(size=d) * 10, rho=1.3))
    return parts


def part_lines(parts):
    return ['pclear'] + ['pt c=%s r=%r v=%s w=%s f=%s rho=%r' % (fmt(p['c']), p['r'], fmt(p['v']), fmt(p['w']), fmt(p['f']), p['rho']) for p in parts]


def surf_line(rng, dim, extra=''):
    k = float(np.round(rng.uniform(.08, .6), 3))
    dp = [k] if dim == 2 else [float(np.round(rng.uniform(.15, .6), 3)), float(np.round(rng.uniform(.15, .6), 3))]
    scale = int(rng.choice([1, 2, 4, 4, 5]))
    return dp, scale, 'materials dpart=%s scale=%d twice=%d %s' % (fmt(dp), scale, int(rng.random() < .25), extra)


# ---------------------------------------------------------------- oracles
def inside(p, x):
    """-1 outside, 1 inside, 0 undecidable by rounding"""
    q = (((x - p['c']) / p['r']) ** 2).sum(1)
    return np.where(q < 1 - 1e-9, 1, np.where(q > 1 + 1e-9, -1, 0))


def cross(a, b):
    if a.shape[-1] == 2 if hasattr(a, 'shape') and a.ndim else False:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return np.cross(a, b)


def cr(r, u):
    """r x u"""
    return (r[:, :1] * u[:, 1:2] - r[:, 1:2] * u[:, :1]) if r.shape[1] == 2 else np.cross(r, u)


def wxr(w, r):
    return np.stack([-w[0] * r[:, 1], w[0] * r[:, 0]], 1) if r.shape[1] == 2 else np.cross(np.asarray(w)[None, :], r)


def area(p, d):
    return 2 * np.pi * p['r'] if d == 2 else 4 * np.pi * p['r'] ** 2


def volume(p, d):
    return np.pi * p['r'] ** 2 if d == 2 else 4. / 3 * np.pi * p['r'] ** 3


def q1_matrix(f, x):
    """sparse interpolation matrix: fine nodes -> positions"""
    d = f.dim
    x = np.atleast_2d(x)
    n = len(x)
    i0 = np.zeros((n, d), int)
    t = np.zeros((n, d))
    for k in range(d):
        nel = f.nv[k] if f.per[k] else f.nv[k] - 1
        s = x[:, k] / f.h[k]
        i0[:, k] = np.clip(np.floor(s + 1e-12).astype(int), 0, nel - 1)
        t[:, k] = s - i0[:, k]
    strides = np.cumprod([1] + f.nv[:-1])
    rows, cols, vals = [], [], []
    for bits in itertools.product((0, 1), repeat=d):
        w = np.ones(n)
        idx = np.zeros(n, int)
        for k in range(d):
            w = w * (t[:, k] if bits[k] else 1 - t[:, k])
            idx += ((i0[:, k] + bits[k]) % f.nv[k]) * strides[k]
        rows.append(np.arange(n))
        cols.append(idx)
        vals.append(w)
    return sp.csr_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), shape=(n, f.NV))


def subpoints(f, p, scale):
    """sub-lattice points of all elements near the particle"""
    d = f.dim
    ax = []
    for k in range(d):
        nel = f.nv[k] if f.per[k] else f.nv[k] - 1
        lo = max(0, int((p['c'][k] - p['r']) / f.h[k]) - 2)
        hi = min(nel, int((p['c'][k] + p['r']) / f.h[k]) + 3)
        ax.append(np.arange(lo * scale, hi * scale) * (f.h[k] / scale))
    g = np.meshgrid(*ax, indexing='ij')
    return np.stack([a.ravel() for a in g], 1)


def vals(ev, d, key='g'):
    """records [particle, position, value] of all processes"""
    a = np.concatenate([np.array(r).reshape(-1, 1 + 2 * d) for r in ev[key]])
    return a[:, 0].astype(int), a[:, 1:1 + d], a[:, 1 + d:]


def same_everywhere(out, label, name, per_rank):
    for r in per_rank[1:]:
        if r != per_rank[0]:
            out.append(('ranks', '%s: %s differs between processes: %s vs %s' % (label, name, per_rank[0][:6], r[:6])))
            return


def layout(f, y0):
    """unknowns seen by each process, deduced from the values read with node numbers as the field"""
    return [np.round(np.array(r)).astype(int) for r in y0]


def ids_field(f):
    return np.concatenate([np.arange(f.NV * f.dim, dtype=float), np.zeros(f.NP)])


def check_layout(ctx, out, f, parts, lay, label):
    """every velocity unknown at a node inside a particle appears exactly once over all processes"""
    al = np.concatenate([l for l in lay]) if lay else np.zeros(0, int)
    x = f.vcoords()
    st = np.max([inside(p, x) for p in parts] or [np.full(len(x), -1)], axis=0)
    cnt = np.zeros(f.NV * f.dim, int)
    ok = (al >= 0) & (al < f.NV * f.dim)
    np.add.at(cnt, al[ok], 1)
    cnt = cnt.reshape(f.NV, f.dim)
    must, never = st == 1, st == -1
    bad = (must[:, None] & (cnt != 1)) | (never[:, None] & (cnt != 0)) | (cnt > 1)
    ctx.count('nodes_classified', len(x))
    if bad.any() or not ok.all():
        i = int(np.argmax(bad.any(1)))
        out.append(('points', '%s: node %s at %s (%s the particles) is controlled %s times, %d such nodes' % (
            label, f.vindex()[i].tolist(), x[i].tolist(), {1: 'inside', -1: 'outside', 0: 'on the surface of'}[int(st[i])], cnt[i].tolist(), int(bad.any(1).sum()))))
    if not ctx_pairs(al, f.dim):
        out.append(('order', '%s: components of a node are not consecutive' % label))
    return al


def ctx_pairs(al, d):
    if len(al) % d:
        return False
    b = al.reshape(-1, d)
    return bool((b % d == np.arange(d)).all() and (b // d == b[:, :1] // d).all())


def surf_of(ev, d):
    """per process: particle, cell, offset, radial vector"""
    r = []
    for q in ev['surf']:
        a = np.array(q, dtype=float).reshape(-1, 1 + 3 * d)
        r.append((a[:, 0].astype(int), a[:, 1:1 + d].astype(int), a[:, 1 + d:1 + 2 * d], a[:, 1 + 2 * d:]))
    return r


def gaps_ok(ang, k):
    a = np.sort(ang % (2 * np.pi))
    g = np.diff(np.concatenate([a, [a[0] + 2 * np.pi]]))
    return g.min(), g.max()


def check_surface(ctx, out, f, parts, ev, dp, label):
    d = f.dim
    S = surf_of(ev, d)
    h = np.array(f.h)
    tot = np.zeros(len(parts), int)
    for ip, p in enumerate(parts):
        pos, rad = [], []
        for rk, (a, cell, off, rv) in enumerate(S):
            m = a == ip
            pos.append(cell[m] * h + off[m])
            rad.append(rv[m])
            nel = np.array([f.nv[k] if f.per[k] else f.nv[k] - 1 for k in range(d)])
            if (cell[m] < 0).any() or (cell[m] >= nel).any() or (off[m] < -1e-12 * h).any() or (off[m] > h * (1 + 1e-12)).any():
                out.append(('cell', '%s: particle %d has a surface point outside the element it is attached to (process %d)' % (label, ip, rk)))
        pos, rad = np.concatenate(pos), np.concatenate(rad)
        tot[ip] = len(pos)
        ctx.count('surface_points', len(pos))
        if not len(pos):
            out.append(('none', '%s: particle %d has no surface point' % (label, ip)))
            continue
        if np.isnan(rad).any() or abs(np.linalg.norm(pos - p['c'], axis=1) / p['r'] - 1).max() > 1e-9:
            out.append(('onsurface', '%s: particle %d: a surface point is not on the surface' % (label, ip)))
        if not abs(rad - (pos - p['c'])).max() <= 1e-9 * p['r']:
            out.append(('radial', '%s: particle %d: a radial vector does not join the centre to its surface point' % (label, ip)))
        u = (pos - p['c']) / p['r']
        if d == 2:
            lo, hi = gaps_ok(np.arctan2(u[:, 1], u[:, 0]), dp[0])
            if lo < 1e-7 * dp[0]:
                out.append(('twice', '%s: particle %d: a surface point is counted twice (closest pair %.3g rad)' % (label, ip, lo)))
            if hi > 2 * dp[0] * (1 + 1e-6) + 1e-9:
                out.append(('gap', '%s: particle %d: hole of %.3g rad in the surface points (step %.3g)' % (label, ip, hi, dp[0])))
        else:
            rng = np.random.default_rng(5)
            q = rng.normal(size=(300, 3))
            q /= np.linalg.norm(q, axis=1)[:, None]
            ang = np.arccos(np.clip((q @ u.T).max(1), -1, 1)).max()
            ctx.maxi('largest_3d_hole_over_step', ang / np.hypot(*dp))
            if ang > 1.7 * np.hypot(*dp):
                out.append(('gap', '%s: particle %d: hole of %.3g rad in the surface points (steps %s)' % (label, ip, ang, dp)))
        # mirror symmetry: the discrete mean of the radial vectors vanishes, so that rigid motions are filtered exactly
        if abs(u.mean(0)).max() > 1e-9:
            out.append(('balance', '%s: particle %d: surface points are not balanced around the centre (%s)' % (label, ip, u.mean(0).tolist())))
    same_everywhere(out, label, 'global number of surface points', ev['nb'])
    if [int(v) for v in ev['nb'][0]] != tot.tolist():
        out.append(('nb', '%s: global surface-point counts %s, %s points are held' % (label, ev['nb'][0], tot.tolist())))
    return tot


@check('C10', 'random grids x random disjoint particles (arbitrary or grid-aligned) x process counts, 2-D and 3-D: the controlled nodes, surface points, radial vectors and quadrature counts '
       'recorded on every process are checked against the geometry; non-trivial = one particle set on one partition',
       ['particles are disjoint and inside the box', 'points closer to a surface than 1e-9 of the radius may fall on either side'])
def c10(ctx):
    rng = ctx.rng
    for dim, nps, count in ((2, NP2, ctx.k(30, 240)), (3, NP3, ctx.k(10, 70))):
        for np_ in nps:
            for _ in range(count):
                n, per, L = rand_grid(rng, dim, np_, lo=5)
                f = Ref(n, per, L)
                parts = rand_parts(rng, f, none=.04)
                dp, scale, ml = surf_line(rng, dim)
                label = '%dD n=%s per=%s L=%s np=%d dpart=%s scale=%d parts=%s' % (dim, n, per, L, np_, dp, scale, [(p['c'].round(4).tolist(), round(p['r'], 4)) for p in parts])

                def j(r, f=f, parts=parts, dp=dp, scale=scale, label=label, dim=dim):
                    out = []
                    e = r.ev('materials')
                    ctx.seen(label)
                    check_surface(ctx, out, f, parts, e, dp, label)
                    strides = np.cumprod([1] + f.nv[:-1])
                    lay = []
                    for rk, q in enumerate(e['points']):
                        a = np.array(q, dtype=int).reshape(-1, 1 + dim)
                        if len(a) != int(e['size'][rk][0]):
                            out.append(('size', '%s: process %d reserves %s control points and holds %d' % (label, rk, e['size'][rk], len(a))))
                        ids = (a[:, 1:] * strides).sum(1)
                        lay.append((ids[:, None] * dim + np.arange(dim)).ravel())
                        for ip, p in enumerate(parts):
                            x = a[a[:, 0] == ip][:, 1:] * np.array(f.h)
                            if len(x) and (inside(p, x) < 0).any():
                                out.append(('owner', '%s: a node is attached to the wrong particle' % label))
                    check_layout(ctx, out, f, parts, lay, label)
                    same_everywhere(out, label, 'quadrature count', e['num'])
                    for ip, p in enumerate(parts):
                        s = inside(p, subpoints(f, p, scale))
                        lo, hi = int((s == 1).sum()), int((s >= 0).sum())
                        ctx.count('quadrature_points', hi)
                        if not lo <= e['num'][0][ip] <= hi:
                            out.append(('num', '%s: particle %d has %s quadrature points, expected %d..%d' % (label, ip, e['num'][0][ip], lo, hi)))
                    return out
                ctx.add('part%d' % dim, Case(label, [mesh_line(n, per, L)] + part_lines(parts) + [ml], {}, [], j), np_)
                ctx.samples.append(label)
    ctx.go(chunk=14)


@check('C11', 'random grids, particles, fields and process counts, 2-D and 3-D: every interpolated surface value and every entry of the spread right-hand side is compared with the bilinear basis; '
       'non-trivial = one field on one particle set',
       ['particles are disjoint and inside the box'])
def c11(ctx):
    rng = ctx.rng
    for dim, nps, count in ((2, NP2, ctx.k(30, 200)), (3, NP3, ctx.k(9, 60))):
        for np_ in nps:
            for _ in range(count):
                n, per, L = rand_grid(rng, dim, np_, lo=5)
                f = Ref(n, per, L)
                parts = rand_parts(rng, f, none=.04)
                bc = rand_bc(rng, dim) if rng.random() < .7 else None
                dp, scale, ml = surf_line(rng, dim, 'bc=' + bcarg(bc) if bc else '')
                X = vectors(rng, f.N, 1)[0]
                polys = [rand_poly(rng, dim) for _ in range(dim)]
                label = '%dD n=%s per=%s L=%s np=%d dpart=%s bc=%s parts=%s' % (dim, n, per, L, np_, dp, bc and bcarg(bc), [(p['c'].round(4).tolist(), round(p['r'], 4)) for p in parts])
                lines = [poly_line(k, q) for k, q in enumerate(polys)] + [mesh_line(n, per, L)] + part_lines(parts) + [ml, 'surfinterp in=@i rigid=0', 'surfinterp in=@i rigid=1', 'spread g=%s out=@o' % ','.join(map(str, range(dim)))]

                def j(r, f=f, parts=parts, X=X, polys=polys, bc=bc, label=label, dim=dim, L=L):
                    out = []
                    e = r.ev('materials')
                    nb = np.array(e['nb'][0])
                    U = X[:f.NV * dim].reshape(f.NV, dim)
                    sc = abs(U).max()
                    for k in (0, 1):
                        q = r.evs('surfinterp')[k]
                        ip, pos, g = vals(q, dim)
                        exp = q1_matrix(f, pos) @ U
                        s = sc
                        if k:
                            for i, p in enumerate(parts):
                                m = ip == i
                                exp[m] -= p['v'] + wxr(p['w'], pos[m] - p['c'])
                                s = max(s, abs(p['v']).max(), abs(p['w']).max() * p['r'])
                        ctx.seen(label, k)
                        ctx.count('surface_values_compared', len(g))
                        bad = ~(abs(g - exp) <= 1e-9 * s)
                        if len(g) != nb.sum():
                            out.append(('count', '%s: %d values for %d surface points' % (label, len(g), nb.sum())))
                        if bad.any():
                            i = int(np.argmax(bad.any(1)))
                            out.append(('interp%d' % k, '%s: surface value at %s of particle %d is %s, expected %s (%s)' % (label, pos[i].tolist(), ip[i], g[i].tolist(), exp[i].tolist(), 'velocity minus rigid motion' if k else 'velocity')))
                        if q['input_changed']:
                            out.append(('input', '%s: interpolation changed %s entries of the field' % (label, q['input_changed'])))
                    # spreading: same points, polynomial surface values
                    ip, pos, _ = vals(r.evs('surfinterp')[0], dim)
                    G = np.stack([poly_eval(p, pos) for p in polys], 1)
                    W = np.array([area(parts[i], dim) / nb[i] for i in ip])
                    B = q1_matrix(f, pos)
                    ref = np.zeros(f.N)
                    R = B.T @ (G * W[:, None])
                    S = abs(B.T) @ abs(G * W[:, None])
                    if bc:
                        R[f.dirichlet(bc) >= 0] = 0.
                    ref[:f.NV * dim] = R.ravel()
                    y = r.out['o']
                    ctx.seen(label, 'spread')
                    ctx.count('rhs_entries_compared', len(y))
                    bad = ~(abs(y - ref) <= 1e-9 * max(S.max(), 1e-30))
                    if bad.any():
                        i = int(np.argmax(abs(y - ref)))
                        out.append(('spread', '%s: spread right-hand side wrong in %d entries, worst %s got %.12g expected %.12g' % (label, bad.sum(), describe(f, i), y[i], ref[i])))
                    return out
                ctx.add('part%d' % dim, Case(label, lines, {'i': X}, ['o'], j), np_)
                ctx.samples.append(label)
    ctx.go(chunk=12)


def cmp(out, sig, label, what, got, exp, scale, tol=1e-9):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    if got.shape != exp.shape or not (abs(got - exp) <= tol * scale).all():
        out.append((sig, '%s: %s is %s, expected %s' % (label, what, got.ravel()[:6].tolist(), exp.ravel()[:6].tolist())))
        return False
    return True


@check('C12', 'random grids, particles, surface fields and velocity fields x process counts, 2-D and 3-D: means, moments and remainders are compared with direct sums over the recorded surface '
       'points and quadrature points; pure rigid surface motions must be removed completely; non-trivial = one field on one particle set',
       ['particles are disjoint and inside the box'])
def c12(ctx):
    rng = ctx.rng
    for dim, nps, count in ((2, NP2, ctx.k(30, 200)), (3, NP3, ctx.k(9, 60))):
        for np_ in nps:
            for _ in range(count):
                n, per, L = rand_grid(rng, dim, np_, lo=5)
                f = Ref(n, per, L)
                parts = rand_parts(rng, f, none=.04)
                if any(not (inside(p, subpoints(f, p, 1)) == 1).any() for p in parts):
                    continue
                dp, scale, ml = surf_line(rng, dim)
                X = vectors(rng, f.N, 1)[0]
                rigid = rng.random() < .35
                if rigid:   # a global rigid motion: removed completely by the surface filter
                    a, w = rng.normal(size=dim), rng.normal(size=1 if dim == 2 else 3)
                    if dim == 2:
                        polys = [[(a[0], [0, 0]), (-w[0], [0, 1])], [(a[1], [0, 0]), (w[0], [1, 0])]]
                    else:
                        polys = [[(a[0], [0, 0, 0]), (w[1], [0, 0, 1]), (-w[2], [0, 1, 0])], [(a[1], [0, 0, 0]), (w[2], [1, 0, 0]), (-w[0], [0, 0, 1])],
                                 [(a[2], [0, 0, 0]), (w[0], [0, 1, 0]), (-w[1], [1, 0, 0])]]
                else:
                    polys = [rand_poly(rng, dim) for _ in range(dim)]
                label = '%dD n=%s per=%s L=%s np=%d dpart=%s scale=%d rigid=%d parts=%s' % (dim, n, per, L, np_, dp, scale, rigid, [(p['c'].round(4).tolist(), round(p['r'], 4)) for p in parts])
                lines = [poly_line(k, q) for k, q in enumerate(polys)] + [mesh_line(n, per, L)] + part_lines(parts) + [ml, 'layer g=' + ','.join(map(str, range(dim))), 'project in=@ids', 'project in=@i']

                def j(r, f=f, parts=parts, X=X, polys=polys, label=label, dim=dim, rigid=rigid, scale=scale):
                    out = []
                    e = r.ev('materials')
                    nb = np.array(e['nb'][0])
                    q = r.ev('layer')
                    nc = 1 if dim == 2 else 3
                    ip, pos, g = vals(q, dim)
                    same_everywhere(out, label, 'surface mean', q['mean'])
                    same_everywhere(out, label, 'surface moment', q['cross'])
                    mean, crs = np.array(q['mean'][0]).reshape(-1, dim), np.array(q['cross'][0]).reshape(-1, nc)
                    G = np.stack([poly_eval(p, pos) for p in polys], 1)
                    ctx.seen(label, 'layer')
                    for i, p in enumerate(parts):
                        m = ip == i
                        if not m.any():
                            continue
                        rv = pos[m] - p['c']
                        s = max(abs(G[m]).max(), 1e-30)
                        em = G[m].sum(0) / nb[i]
                        cd = (1. if dim == 2 else 1.5) / p['r'] ** 2
                        ec = cd * cr(rv, G[m]).sum(0) / nb[i]
                        cmp(out, 'mean', label, 'surface mean of particle %d' % i, mean[i], em, s)
                        cmp(out, 'moment', label, 'surface rotation of particle %d' % i, crs[i], ec, s / p['r'] * 2)
                        rest = G[m] - em - wxr(ec, rv)
                        cmp(out, 'rest', label, 'remaining surface field of particle %d' % i, g[m], rest, s * 3)
                        # what remains carries no net translation; in 2-D no net rotation either, and rigid motions leave nothing
                        if abs(g[m].mean(0)).max() > 1e-9 * s:
                            out.append(('nettrans', '%s: particle %d: mean %s remains on the surface' % (label, i, g[m].mean(0).tolist())))
                        if dim == 2:
                            t = cr(rv, g[m]).mean()
                            if abs(t) > 1e-9 * s * p['r']:
                                out.append(('netrot', '%s: particle %d: moment %g remains on the surface' % (label, i, t)))
                            if rigid and abs(g[m]).max() > 1e-9 * s:
                                out.append(('rigid', '%s: particle %d: a rigid motion leaves %g on its surface' % (label, i, abs(g[m]).max())))
                    # volume projection
                    lay = layout(f, r.evs('project')[0]['y0'])
                    al = check_layout(ctx, out, f, parts, lay, label)
                    q = r.evs('project')[1]
                    same_everywhere(out, label, 'volume mean', q['mean'])
                    same_everywhere(out, label, 'volume moment', q['cross'])
                    mean, crs = np.array(q['mean'][0]).reshape(-1, dim), np.array(q['cross'][0]).reshape(-1, nc)
                    y, y0 = np.concatenate([np.array(v) for v in q['y']]), np.concatenate([np.array(v) for v in q['y0']])
                    U = X[:f.NV * dim].reshape(f.NV, dim)
                    s = abs(U).max()
                    ctx.seen(label, 'project')
                    if not cmp(out, 'restrict', label, 'restriction of the velocity to the controlled nodes', y0, X[al], s):
                        return out
                    xc = f.vcoords()[al.reshape(-1, dim)[:, 0] // dim]
                    exp = X[al].reshape(-1, dim).copy()
                    skip = np.zeros(len(xc), bool)
                    for i, p in enumerate(parts):
                        P = subpoints(f, p, scale)
                        st = inside(p, P)
                        mine = inside(p, xc) >= 0
                        if (st == 0).any():
                            # membership of some quadrature points is a rounding matter: only the consistency of y with the reported means is judged
                            em, ec = mean[i], crs[i]
                            ctx.count('projections_with_ties')
                        else:
                            P = P[st == 1]
                            u = q1_matrix(f, P) @ U
                            em, ec = u.mean(0), cr(P - p['c'], u).mean(0)
                            ctx.count('quadrature_points', len(P))
                            cmp(out, 'vmean', label, 'mean velocity in particle %d' % i, mean[i], em, s)
                            cmp(out, 'vmoment', label, 'mean moment in particle %d' % i, crs[i], ec, s * p['r'])
                        ci = (2. if dim == 2 else 2.5) / p['r'] ** 2
                        exp[mine] -= em + ci * wxr(ec, xc[mine] - p['c'])
                    bad = ~(abs(y.reshape(-1, dim) - exp) <= 1e-8 * s * 5)
                    if bad.any():
                        i = int(np.argmax(bad.any(1)))
                        out.append(('residual', '%s: velocity minus its rigid part at node %s is %s, expected %s' % (label, xc[i].tolist(), y.reshape(-1, dim)[i].tolist(), exp[i].tolist())))
                    return out
                ctx.add('part%d' % dim, Case(label, lines, {'i': X, 'ids': ids_field(f)}, [], j), np_)
                ctx.samples.append(label)
    ctx.go(chunk=12)


@check('C13', 'random grids, particles, controls, forces and right-hand sides x process counts, 2-D and 3-D: the right-hand side after adding a control is compared entry by entry with the mass operator applied to '
       'the control density (plus weight when requested), boundary rows and resultants included; non-trivial = one control on one particle set',
       ['particles are disjoint and inside the box'])
def c13(ctx):
    rng = ctx.rng
    for dim, nps, count in ((2, NP2, ctx.k(30, 200)), (3, NP3, ctx.k(9, 60))):
        for np_ in nps:
            for _ in range(count):
                n, per, L = rand_grid(rng, dim, np_, lo=5)
                f = Ref(n, per, L)
                parts = rand_parts(rng, f, none=.04)
                if parts and not any((inside(p, f.vcoords()) == 1).any() for p in parts):
                    continue
                bc = rand_bc(rng, dim)
                bp = [rand_poly(rng, dim) for _ in range(2 * dim * dim)]
                dp, scale, ml = surf_line(rng, dim, 'bc=' + bcarg(bc))
                X = vectors(rng, f.N, 1)[0]
                ctl = rng.standard_normal(4 * f.NV * dim) * 10 ** rng.uniform(-2, 2)
                forces, isize = int(rng.integers(2)), int(rng.integers(1, 50))
                kind, rhs = ('set', 0) if rng.random() < .4 else ('init', int(rng.integers(2)))
                label = '%dD n=%s per=%s L=%s np=%d %s forces=%d rhs=%d bc=%s parts=%s' % (dim, n, per, L, np_, kind, forces, rhs, bcarg(bc), [(p['c'].round(4).tolist(), round(p['r'], 4)) for p in parts])
                lines = [poly_line(k, q) for k, q in enumerate(bp)] + [mesh_line(n, per, L)] + part_lines(parts) + [ml, 'project in=@ids', 'control x=@x in=@i out=@o kind=%s forces=%d rhs=%d isize=%d' % (kind, forces, rhs, isize)]

                def j(r, f=f, parts=parts, X=X, bc=bc, bp=bp, label=label, dim=dim, kind=kind, rhs=rhs, forces=forces, isize=isize):
                    out = []
                    nv = f.NV * dim
                    lay = layout(f, r.ev('project')['y0'])
                    al = check_layout(ctx, out, f, parts, lay, label)
                    e = r.ev('control')
                    x = np.concatenate([np.array(v) for v in e['x']])
                    F = np.zeros(nv)
                    F[al] = x
                    xc = f.vcoords()[al.reshape(-1, dim)[:, 0] // dim]
                    own = -np.ones(len(xc), int)
                    best = np.full(len(xc), np.inf)
                    for i, p in enumerate(parts):
                        q = (((xc - p['c']) / p['r']) ** 2).sum(1)
                        own = np.where(q < best, i, own)
                        best = np.minimum(best, q)
                    if forces:
                        for i, p in enumerate(parts):
                            m = np.repeat(own == i, dim)
                            F[al[m]] += np.tile(p['rho'] * p['f'], int((own == i).sum()))
                    M = f.vmass()
                    ref = X.copy()
                    ref[:nv] += M @ F
                    sc = max(abs(M @ abs(F)).max(), 1e-30) + abs(X).max()
                    if kind == 'init':
                        dmap = f.dirichlet(bc)
                        R = ref[:nv].reshape(f.NV, dim)
                        for c in range(dim):
                            for b in range(2 * dim):
                                m = dmap[:, c] == b
                                if m.any():
                                    R[m, c] = poly_eval(bp[bc[b][c]], f.vcoords()[m]) if rhs else 0.
                        sc += max(abs(R).max(), 0)
                        if e['setups'] != rhs:
                            out.append(('setup', '%s: the right-hand side of the fluid was set up %s times' % (label, e['setups'])))
                    y = r.out['o']
                    ctx.seen(label)
                    ctx.count('rhs_entries_compared', len(y))
                    bad = ~(abs(y - ref) <= 1e-10 * sc)
                    if bad.any():
                        i = int(np.argmax(abs(y - ref)))
                        out.append(('rhs', '%s: right-hand side wrong in %d entries, worst %s got %.12g expected %.12g' % (label, bad.sum(), describe(f, i), y[i], ref[i])))
                    same_everywhere(out, label, 'forces', e['forces'])
                    same_everywhere(out, label, 'torques', e['torques'])
                    Fo, To = np.array(e['forces'][0]).reshape(-1, dim), np.array(e['torques'][0]).reshape(-1, 1 if dim == 2 else 3)
                    xv = x.reshape(-1, dim)
                    for i, p in enumerate(parts):
                        m = own == i
                        w = volume(p, dim) / isize
                        s = max(abs(xv).max(), 1e-30) * max(m.sum(), 1) * w
                        cmp(out, 'force', label, 'force on particle %d' % i, Fo[i], xv[m].sum(0) * w if m.any() else np.zeros(dim), s)
                        cmp(out, 'torque', label, 'torque on particle %d' % i, To[i], cr(xc[m] - p['c'], xv[m]).sum(0) * w if m.any() else np.zeros(To.shape[1]), s * p['r'])
                    return out
                ctx.add('part%d' % dim, Case(label, lines, {'i': X, 'ids': ids_field(f), 'x': ctl}, ['o'], j), np_)
                ctx.samples.append(label)
    ctx.go(chunk=12)
