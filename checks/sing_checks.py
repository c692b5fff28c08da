import numpy as np
from vlib import lubrication
from vlib.core import check
from vlib.run import Case
from vlib.fem import Ref
from checks.fem_checks import mesh_line, describe
from checks.part_checks import part_lines


def frame(p1, p2):
    n = p2['c'] - p1['c']
    D = np.linalg.norm(n)
    return n / D, D - p1['r'] - p2['r']


def cutoff(p1, p2, gap, h):
    K = .5 * (1 / p1['r'] + 1 / p2['r'])
    return min(max(4 * np.sqrt(gap / K), np.sqrt(2) * h), p1['r'], p2['r'])


class Field:
    """truncated lubrication flow of a pair, from the closed form, at physical points"""

    def __init__(self, p1, p2, h):
        self.p1, self.p2, self.d = p1, p2, len(p1['c'])
        self.n, self.gap = frame(p1, p2)
        self.cut = cutoff(p1, p2, self.gap, h)
        self.o = p1['c'] + p1['r'] * self.n
        self.U = float((p2['v'] - p1['v']) @ self.n)
        self.Us = abs(self.U) + 1e-6 * np.linalg.norm(p2['v'] - p1['v'])

    def rz(self, x):
        y = x - self.o
        z = y @ self.n
        t = y - z[:, None] * self.n
        r = np.linalg.norm(t, axis=1)
        any_t = np.eye(self.d)[int(np.argmin(abs(self.n)))]
        any_t = any_t - (any_t @ self.n) * self.n
        any_t /= np.linalg.norm(any_t)
        far = r > 1e-9 * self.cut
        e = np.where(far[:, None], t / np.where(far, r, 1)[:, None], any_t)
        return r, z, e

    def width(self, r):
        return self.gap + .5 * (1 / self.p1['r'] + 1 / self.p2['r']) * r ** 2

    def at(self, x):
        """velocity, gradient, pressure"""
        r, z, e = self.rz(x)
        return self.polar(r, z, e)

    def polar(self, r, z, e):
        n, d = self.n, self.d
        eps = .5 * self.cut ** 2
        rs = np.where(r > 1e-9 * self.cut, r, 1e-9 * self.cut)
        with np.errstate(all='ignore'):
            F = lubrication.functions(d)(rs, z, 1 / self.p1['r'], 1 / self.p2['r'], self.gap, self.U, eps)
        F = [np.broadcast_to(np.asarray(q, float), r.shape) for q in F]
        c, dc = lubrication.chi(rs, eps)
        on = (r < self.cut).astype(float)
        ut, un, utr, utz, unr, unz, p = [np.where(on > 0, q, 0.) for q in F]
        un, unr = un - .5 * self.U * c * on, unr - .5 * self.U * dc * on
        hoop = ut / rs if d == 3 else 0 * ut
        axis = r <= 1e-9 * self.cut
        if d == 3:
            hoop = np.where(axis, utr, hoop)
        ut, utz, unr = [np.where(axis, 0., q) for q in (ut, utz, unr)]
        N, T = np.broadcast_to(n, e.shape), e
        op = lambda a, b: a[:, :, None] * b[:, None, :]
        g = lambda s: s[:, None, None]
        G = g(utr) * op(T, T) + g(utz) * op(T, N) + g(unr) * op(N, T) + g(unz) * op(N, N)
        if d == 3:
            G = G + g(hoop) * (np.eye(3)[None] - op(T, T) - op(N, N))
        return ut[:, None] * T + un[:, None] * N, G, p


_previous = {}


def rand_pair(rng, d):
    """near-contact pair; sometimes the previous one with a single attribute changed"""
    old = _previous.get((id(rng), d))
    if old is None or rng.random() > .3:
        p1, p2 = fresh_pair(rng, d)
    else:
        p1, p2 = (dict(p) for p in old)
        k = int(rng.integers(6))
        n, gap = frame(p1, p2)
        if k == 0:
            p2['v'] = p1['v'] + rng.normal(size=d)
        elif k == 1:
            s = rng.normal(size=d)
            p1['c'], p2['c'] = p1['c'] + s, p2['c'] + s
        elif k == 2:
            n = rng.normal(size=d)
            p2['c'] = p1['c'] + (p1['r'] + p2['r'] + gap) * n / np.linalg.norm(n)
        elif k == 3:
            r = p2['r'] * float(rng.uniform(.7, 1.5))
            p2['c'], p2['r'] = p2['c'] + (r - p2['r']) * n, r
        elif k == 4:
            p2['c'] = p2['c'] + gap * float(rng.uniform(-.5, .5)) * n
        else:
            p1, p2 = p2, p1
        gap = frame(p1, p2)[1]
        if not .004 < gap / min(p1['r'], p2['r']) < .46 or not .2 < p1['r'] / p2['r'] < 5:
            p1, p2 = fresh_pair(rng, d)
    _previous[id(rng), d] = p1, p2
    return dict(p1), dict(p2)


def fresh_pair(rng, d, rr=None):
    r1, r2 = rr if rr else rng.uniform(.05, .4, 2) * (1 if rng.random() < .5 else rng.uniform(.3, 3))
    gap = min(r1, r2) * float(rng.choice([.01, .03, .1, .3])) * rng.uniform(.5, 1.5)
    n = rng.normal(size=d)
    n /= np.linalg.norm(n)
    if rng.random() < .35:
        n = np.zeros(d)
        n[rng.integers(d)] = rng.choice([-1., 1.])
    c1 = np.round(rng.uniform(.5, 1.5, d), 2) if rng.random() < .5 else rng.uniform(.5, 1.5, d)
    if rng.random() < .4:    # coordinates of different sizes and signs
        c1 = rng.uniform(-5, 5, d)
    p1, p2 = dict(c=c1, r=float(r1)), dict(c=c1 + (r1 + r2 + gap) * n, r=float(r2))
    k = rng.integers(6)
    t = rng.normal(size=d)
    t -= (t @ n) * n
    v = {0: rng.normal(size=d), 1: n * rng.normal(), 2: t, 3: np.zeros(d), 4: rng.normal(size=d) * 1e-3 + n, 5: rng.normal(size=d)}[int(k)]
    base = np.zeros(d) if k in (1, 5) else rng.normal(size=d)
    p1['v'], p2['v'] = base, base + v
    if rng.random() < .2:
        p2['v'] = np.zeros(d)
        p1['v'] = -v
    return p1, p2


def near(err, tol):
    return np.isfinite(err) & (err <= tol)


@check('C18', 'random pairs of discs (2-D) and spheres (3-D) in near contact: radii, gaps from 0.5 % to 45 % of the smaller radius, directions (axis-aligned and oblique), relative motions (normal, tangential, none, general) and '
       'points inside the gap, on the walls, on the axis, at and beyond the cut-off; each value is compared with the closed-form lubrication flow derived independently from the Reynolds equation; '
       'non-trivial = one distinct pair and point', ['particles closer than one length unit'])
def c18(ctx):
    rng = ctx.rng
    for d in (2, 3):
        # some pairs with many points, and many pairs (for the cells announced) with one point
        for b, (batch, npt) in enumerate([(25, 12)] * ctx.k(24, 400) + [(200, 1)] * ctx.k(5, 60)):
            rows, metas = [], []
            for _ in range(batch):
                p1, p2 = rand_pair(rng, d)
                n, gap = frame(p1, p2)
                h = min(p1['r'], p2['r']) * float(rng.choice([.02, .1, .4, .8])) * rng.uniform(.5, 1.4)
                F = Field(p1, p2, h)
                r = F.cut * rng.choice([0, .1, .3, .5, .7, .9, .99, 1.001, 1.2], npt) * np.where(rng.random(npt) < .5, 1, rng.uniform(.9, 1, npt))
                r[0] = 0
                s = rng.choice([0, 1, .5, -.2, 1.3, .25, .75], npt) + np.where(rng.random(npt) < .5, 0, rng.normal(size=npt) * .1)
                z = -r ** 2 / (2 * p1['r']) + s * F.width(r)
                t = rng.normal(size=(npt, d))
                t -= (t @ n)[:, None] * n
                t /= np.linalg.norm(t, axis=1)[:, None]
                X = F.o + z[:, None] * n + r[:, None] * t
                XR = np.zeros((npt, d))
                if d == 2:
                    XR[:, 0], XR[:, 1] = z, r * rng.choice([-1, 1], npt)
                else:
                    ph = rng.uniform(0, 2 * np.pi, npt)
                    XR[:, 0], XR[:, 1], XR[:, 2] = r * np.cos(ph), r * np.sin(ph), z
                head = np.r_[p1['r'], p1['c'], p1['v'], p2['r'], p2['c'], p2['v'], h]
                for i in range(npt):
                    rows.append(np.r_[head, X[i], XR[i]])
                metas.append((p1, p2, h, F, X, XR))
            rows = np.array(rows)

            def j(res, rows=rows, metas=metas, d=d, npt=npt):
                Y = res.out['o'].reshape(len(rows), -1)
                out = []
                for k, (p1, p2, h, F, X, XR) in enumerate(metas):
                    y = Y[k * npt:(k + 1) * npt]
                    lab = '%dD r=(%g,%g) gap=%g direction=%s relative velocity=%s' % (d, p1['r'], p2['r'], F.gap, F.n.round(3).tolist(), (p2['v'] - p1['v']).round(3).tolist())
                    it = iter(np.split(y, np.cumsum([1, 1, 1, d, d, d, d * d, d, d * d, 1, d, d * d, 1, d]), axis=1))
                    sing, gap, cut, ref, back, fromref, base, u, G, p, ur, Gr, pr, lo, hi = it
                    ctx.count('points', npt)
                    ctx.count('pairs')
                    for q in rows[k * npt:(k + 1) * npt]:
                        ctx.seen(q.tobytes())

                    def bad(sig, err, tol, what, got, exp):
                        e = np.asarray(err).reshape(npt, -1).max(1)
                        t = np.broadcast_to(tol, (npt,))
                        ctx.maxi('worst_error_over_tolerance', np.nanmax(e / t))
                        m = ~near(e, t)
                        if m.any():
                            i = int(np.argmax(m))
                            out.append((sig, '%s at %s: %s got %s expected %s' % (lab, X[i].tolist(), what, np.asarray(got)[i].tolist(), np.asarray(exp)[i].tolist())))
                    if not sing.all():
                        out.append(('flag', '%s: not recognised as a near contact' % lab))
                        continue
                    R = p1['r']
                    bad('gap', abs(gap[:, 0] - F.gap), 1e-12 * R + 1e-14, 'contact length', gap[:, 0], np.full(npt, F.gap))
                    bad('cutoff', abs(cut[:, 0] - F.cut), 1e-7 * R, 'cut-off distance', cut[:, 0], np.full(npt, F.cut))
                    B = base.reshape(npt, d, d)
                    bad('frame', abs(B @ B.transpose(0, 2, 1) - np.eye(d)), 1e-8, 'frame', base, base)
                    bad('frame', abs(np.linalg.det(B) - 1), 1e-8, 'orientation of the frame', base, base)
                    ax = 0 if d == 2 else 2
                    bad('axis', abs(B[:, ax] - F.n), 1e-10, 'axis of the frame', B[:, ax], np.tile(F.n, (npt, 1)))
                    bad('roundtrip', abs(back - X), 1e-7 * R, 'point transformed to the frame and back', back, X)
                    exp = F.o + np.einsum('ij,ijk->ik', XR, B)
                    bad('fromref', abs(fromref - exp), 1e-9 * R, 'point of the frame in space', fromref, exp)
                    exp = np.einsum('ijk,ik->ij', B, X - F.o)
                    bad('toref', abs(ref - exp), 1e-9 * R, 'point in the frame', ref, exp)
                    # fields: the tolerance follows the size of the flow at the point
                    for tag, vel, gr, pp, (r, z, e) in (('', u, G, p, F.rz(X)), (' (frame)', ur, Gr, pr, (None,) * 3)):
                        if r is None:
                            r = abs(XR[:, 1]) if d == 2 else np.hypot(XR[:, 0], XR[:, 1])
                            z = XR[:, ax]
                            nn = np.eye(d)[ax]
                            tt = XR - z[:, None] * nn
                            far = r > 1e-9 * F.cut
                            e = np.where(far[:, None], tt / np.where(far, r, 1)[:, None], np.eye(d)[1 if d == 2 else 0])
                            save, F.n = F.n, nn
                            eu, eG, ep = F.polar(r, z, e)
                            F.n = save
                        else:
                            eu, eG, ep = F.polar(r, z, e)
                        w = F.width(r)
                        st = 1 + np.abs(z) / w
                        su = F.Us * (1 + r / w) * st ** 3 * (1 + r ** 2 / F.cut ** 2 * 40) + 1e-13
                        bad('velocity', abs(vel - eu), 1e-7 * su, 'singular velocity' + tag, vel, eu)
                        bad('gradient', abs(gr - eG.reshape(npt, -1)), 1e-7 * su / np.minimum(w, F.cut), 'gradient of the singular velocity' + tag, gr, eG.reshape(npt, -1))
                        bad('pressure', abs(pp[:, 0] - ep), 1e-8 * (24 * F.Us / (1 / p1['r'] + 1 / p2['r']) / (2 * F.gap) ** 2 + 1e-13), 'singular pressure' + tag, pp[:, 0], ep)
                        tr = np.trace(gr.reshape(npt, d, d), axis1=1, axis2=2)
                        bad('divergence', abs(tr), 1e-7 * su / np.minimum(w, F.cut), 'divergence' + tag, tr, 0 * tr)
                    # the box of cells covers the whole gap region
                    q = np.linspace(-1, 1, 21)
                    th = np.linspace(0, 2 * np.pi, 17)
                    tb = B[0, 1 - 0] if d == 2 else None
                    T = [tb * s for s in q] if d == 2 else [(B[0, 0] * np.cos(a) + B[0, 1] * np.sin(a)) * s for s in (.5, 1.) for a in th]
                    L = []
                    if F.cut <= min(p1['r'], p2['r']) * (1 - 1e-9):
                        for s in T:
                            rho = np.linalg.norm(s) * F.cut
                            for zz in (-p1['r'] + np.sqrt(p1['r'] ** 2 - rho ** 2), F.gap + p2['r'] - np.sqrt(p2['r'] ** 2 - rho ** 2)):
                                L.append(F.o + zz * F.n + s * F.cut)
                        L = np.array(L)
                        ctx.count('boxes')
                        if (L.min(0) < lo[0] * h - 1e-9).any() or (L.max(0) > hi[0] * h + 1e-9).any():
                            out.append(('box', '%s h=%g: cells %s..%s do not cover the gap region %s..%s' % (lab, h, lo[0].tolist(), hi[0].tolist(), (L.min(0) / h).tolist(), (L.max(0) / h).tolist())))
                    if len(out) > 20:
                        break
                return out
            ctx.add('sing%d' % d, Case('singular fields %dD batch %d' % (d, b), ['fields in=@i out=@o'], {'i': rows.ravel()}, ['o'], j))
    ctx.go(chunk=1, timeout=120)


# ---------------------------------------------------------------- the correction inside the solver
def close_parts(rng, f, want, tries=400):
    """`want` particles inside the box; pairs either in near contact (cut-off well below the radii) or more than one unit apart"""
    d = f.dim
    hm = f.h[0]
    if want == 0:
        return []
    for _ in range(tries):
        r1 = float(rng.uniform(1.1 if rng.random() < .3 else 2.2, 5.5 if rng.random() < .5 else max(5.6, .3 * min(f.L) / hm)) * hm)
        parts = []
        n = rng.normal(size=d)
        n /= np.linalg.norm(n)
        if rng.random() < .3:
            n = np.eye(d)[rng.integers(d)] * rng.choice([-1., 1.])
        r2 = r1 if rng.random() < .4 else float(rng.uniform(.6, 1.4) * r1)
        gap = min(r1, r2) * (rng.uniform(.004, .033) if rng.random() < .6 else rng.uniform(.03, .9))
        mid = np.array([rng.uniform(0, l) for l in f.L])
        c = [mid - n * (r1 + gap / 2), mid + n * (r2 + gap / 2)]
        rad = [r1, r2]
        if want == 1:
            c, rad = c[:1], rad[:1]
        if want >= 3:
            t = rng.normal(size=d)
            t -= (t @ n) * n
            t /= np.linalg.norm(t)
            if rng.random() < .6:    # third particle touching the first two, or far away
                r3 = float(rng.uniform(.7, 1.3) * r1)
                g3 = gap * rng.uniform(.6, 1.4)
                a, b, D = r1 + r3 + g3, r2 + r3 + g3, r1 + r2 + gap
                x = (a * a - b * b + D * D) / (2 * D)
                c.append(c[0] + x * n + np.sqrt(max(a * a - x * x, 0)) * t)
                rad.append(r3)
            else:
                c.append(np.array([rng.uniform(0, l) for l in f.L]))
                rad.append(float(rng.uniform(1, 3) * hm))
        order = rng.permutation(len(c))
        parts = [dict(c=c[i], r=rad[i], v=rng.normal(size=d), w=rng.normal(size=1 if d == 2 else 3), f=rng.normal(size=d), rho=1.) for i in order]
        if rng.random() < .2:    # no sliding: relative velocities along the line of centres of the first two
            common = rng.normal(size=d) * rng.integers(2)
            for p in parts:
                p['v'] = common + float(rng.normal()) * n
        ok = all((p['c'] - p['r'] > 1.2 * np.array(f.h)).all() and (p['c'] + p['r'] < np.array(f.L) - 1.2 * np.array(f.h)).all() for p in parts)
        for i in range(len(parts)):
            for j in range(i):
                g = frame(parts[i], parts[j])[1]
                if g <= 1e-4 * hm:
                    ok = False
        if ok:
            return parts
    return None


def pairs_of(parts, h):
    """near contacts in the order in which the library sees them"""
    return [(i, j, Field(parts[i], parts[j], h)) for i in range(len(parts)) for j in range(i + 1, len(parts)) if frame(parts[i], parts[j])[1] < 1]


SCALE = 10


def gap_points(f, F, p1, p2):
    """sub-lattice points of the fluid part of the gap; None when one of them is too close to a border of the region to be decided"""
    d = f.dim
    q = [F.o + s * F.n for s in (0, F.gap)]
    lo = np.min(q, 0) - F.cut * 1.5
    hi = np.max(q, 0) + F.cut * 1.5
    ax = [np.arange(max(0, int(lo[k] / f.h[k]) - 1) * SCALE, min(f.nv[k] - (not f.per[k]), int(hi[k] / f.h[k]) + 2) * SCALE) for k in range(d)]
    g = np.meshgrid(*ax, indexing='ij')
    I = np.stack([a.ravel() for a in g], 1)
    X = I * np.array(f.h) / SCALE
    y = X - F.o
    z = y @ F.n
    r = np.linalg.norm(y - z[:, None] * F.n, axis=1)
    near = (r <= F.cut + 1e-9) & (z > -p1['r']) & (z < F.gap + p2['r'])
    s = [((X - p['c']) ** 2).sum(1) / p['r'] ** 2 - 1 for p in (p1, p2)]
    if (near & ((abs(s[0]) < 1e-9) | (abs(s[1]) < 1e-9))).any():
        return None
    m = near & (s[0] > 0) & (s[1] > 0) & (r < F.cut)
    return I[m], X[m]


def q1_local(f, I, grad):
    """element corner numbers and weights (or gradients) of the bilinear functions at sub-lattice points"""
    d = f.dim
    e, t = I // SCALE, (I % SCALE) / SCALE
    strides = np.cumprod([1] + f.nv[:-1])
    out = []
    for c in range(2 ** d):
        b = [(c >> k) & 1 for k in range(d)]
        idx = sum(((e[:, k] + b[k]) % f.nv[k]) * strides[k] for k in range(d))
        w = [t[:, k] if b[k] else 1 - t[:, k] for k in range(d)]
        if grad:
            val = np.stack([np.prod([((1 if b[k] else -1) / f.h[k] * np.ones(len(t))) if k == a else w[k] for k in range(d)], 0) for a in range(d)], 1)
        else:
            val = np.prod(w, 0)
        out.append((idx, val))
    return out


def singular_source(f, parts, pairs):
    """weak form of the singular flow: - grad u : grad v + p div v over the gaps, and its total size"""
    d = f.dim
    S = np.zeros((f.NV, d))
    size = 0.
    w = np.prod(f.h) / SCALE ** d
    for i, j, F in pairs:
        q = gap_points(f, F, parts[i], parts[j])
        if q is None:
            return None
        if not len(q[0]):
            continue
        u, G, p = F.at(q[1])
        for idx, g in q1_local(f, q[0], True):
            v = w * (p[:, None] * g - np.einsum('nij,nj->ni', G, g))
            np.add.at(S, idx, v)
        size = max(size, w * (abs(p).max() + abs(G).max()) / min(f.h))
    return S, float(size)


def singular_velocity(f, parts, pairs):
    S = np.zeros((f.NV, f.dim))
    for i, j, F in pairs:
        q = gap_points(f, F, parts[i], parts[j])
        if q is None:
            return None
        if not len(q[0]):
            continue
        u, G, p = F.at(q[1])
        for idx, v in q1_local(f, q[0], False):
            np.add.at(S, idx, u * v[:, None] / SCALE ** f.dim)
    return S


def cap_force(F, k, N):
    """- integral of the stress over the cap of particle k (0 or 1) below the cut-off"""
    d = F.d
    p, s = (F.p1, 1.) if k == 0 else (F.p2, -1.)
    R = p['r']
    th = np.arcsin(min(F.cut / R, 1.))
    if d == 2:
        a = (np.arange(-N, N) + .5) * th / N
        n = F.n
        t = np.array([-n[1], n[0]])
        nu = s * np.cos(a)[:, None] * n + np.sin(a)[:, None] * t
        w = np.full(len(a), th / N * R)
    else:
        n = F.n
        t1 = np.eye(3)[int(np.argmin(abs(n)))]
        t1 = t1 - (t1 @ n) * n
        t1 /= np.linalg.norm(t1)
        t2 = np.cross(n, t1)
        M = 24
        a, b = np.meshgrid((np.arange(N) + .5) * th / N, np.arange(M) * 2 * np.pi / M, indexing='ij')
        a, b = a.ravel(), b.ravel()
        nu = s * np.cos(a)[:, None] * n + np.sin(a)[:, None] * (np.cos(b)[:, None] * t1 + np.sin(b)[:, None] * t2)
        w = th / N * 2 * np.pi / M * R * R * np.sin(a)
    # the walls of the closed form are the parabolas: evaluate at the actual position on the sphere
    x = p['c'] + R * nu
    u, G, pr = F.at(x)
    sig = G + G.transpose(0, 2, 1) - pr[:, None, None] * np.eye(d)
    T = np.einsum('nij,nj->ni', sig, nu) * w[:, None]
    return -T.sum(0), abs(T).sum()


def pt_desc(parts):
    return [(p['c'].round(4).tolist(), round(p['r'], 4)) for p in parts]


@check('C24', 'random sets of one to three discs or spheres in near contact on random meshes (2-D and 3-D, anisotropic, periodic) x process counts: every entry of the correction of the right-hand side, of the solution, '
       'the singular forces of each particle through three entry points, and the coupled Dirichlet-to-Neumann problem with the correction are compared with the closed-form lubrication flow; non-trivial = one configuration',
       ['particles inside the box', 'no sample of the sub-lattice within rounding of a surface'])
def c24(ctx):
    rng = ctx.rng
    for d, nps, count in ((2, (1, 2, 3, 4, 6), ctx.k(40, 240)), (3, (1, 2, 4), ctx.k(12, 80))):
        for np_ in nps:
            old = None
            for _ in range(count):
                n = [int(rng.integers(*((9, 20 if rng.random() < .6 else 34) if d == 2 else (6, 9)))) for _ in range(d)]
                per = [int(rng.random() < .2) for _ in range(d)]
                L0 = float(rng.uniform(.6, 3.))
                L = [float(np.round(L0 * n[k] / n[0] * rng.uniform(.8, 1.25), 3)) for k in range(d)]
                f = Ref(n, per, L)
                parts = close_parts(rng, f, int(rng.choice([0, 1, 2, 2, 2, 2, 3, 3])))
                if old is not None and old[4] and rng.random() < .2:
                    # the previous problem again with another motion, order or position
                    f, n, per, L, parts = old
                    parts = [dict(p) for p in parts]
                    k = int(rng.integers(3))
                    if k == 0:
                        parts[0]['v'] = rng.normal(size=d)
                    elif k == 1:
                        parts = parts[1:] + parts[:1]
                    else:
                        s = rng.uniform(-1, 1, d) * .1 * np.array(f.h)
                        for p in parts:
                            p['c'] = p['c'] + s
                if parts is None:
                    continue
                old = f, n, per, L, parts
                pairs = pairs_of(parts, f.h[0])
                src = singular_source(f, parts, pairs)
                vel = singular_velocity(f, parts, pairs) if d == 2 else None
                if src is None:
                    continue
                N = int(rng.choice([100, 100, 150]))
                base = rng.standard_normal(f.N)
                label = '%dD n=%s per=%s L=%s np=%d parts=%s' % (d, n, per, L, np_, pt_desc(parts))
                dp = '.3' if d == 2 else '.5,.5'
                lines = [mesh_line(n, per, L)] + part_lines(parts) + ['materials dpart=%s scale=2 twice=0' % dp, 'singrhs in=@i out=@o', 'singforces N=%d' % N] + (['singsol in=@i out=@s'] if d == 2 else [])

                def j(r, f=f, d=d, parts=parts, pairs=pairs, src=src, vel=vel, base=base, label=label):
                    out = []
                    ctx.seen(label)
                    ctx.count('particle_pairs', len(pairs))
                    nv = f.NV * d
                    y = r.out['o']
                    S, size = src
                    exp = S.ravel()
                    got = (y - base)[:nv]
                    tol = 1e-7 * size + 1e-12
                    bad = ~(abs(got - exp) <= tol)
                    ctx.maxi('worst_source_error', (abs(got - exp) / tol).max())
                    if bad.any():
                        i = int(np.argmax(abs(got - exp)))
                        out.append(('source', '%s: singular source differs in %d entries, worst %s got %.10g expected %.10g' % (label, bad.sum(), describe(f, i), got[i], exp[i])))
                    if (y[nv:] != base[nv:]).any():
                        out.append(('pressure-rows', '%s: the singular source changed the pressure rows' % label))
                    if vel is not None:
                        got = (r.out['s'] - base)[:nv]
                        exp = vel.ravel()
                        tol = 1e-7 * sum(F.Us * (1 + F.cut / F.gap) for _, _, F in pairs) + 1e-12
                        bad = ~(abs(got - exp) <= tol)
                        if bad.any():
                            i = int(np.argmax(abs(got - exp)))
                            out.append(('velocity', '%s: singular velocity added to the solution differs in %d entries, worst %s got %.10g expected %.10g' % (label, bad.sum(), describe(f, i), got[i], exp[i])))
                        if (r.out['s'][nv:] != base[nv:]).any():
                            out.append(('pressure', '%s: the singular velocity changed the pressure' % label))
                    e = r.ev('singforces')
                    exp, siz = np.zeros((len(parts), d)), np.zeros(len(parts))
                    for i, k, F in pairs:
                        for q, (a, which) in enumerate(((i, 0), (k, 1))):
                            v, s = cap_force(F, which, 400)
                            exp[a] += v
                            siz[a] += s
                    for rk in range(len(e['f1'])):
                        q4 = np.array(e['f4'][rk]).reshape(-1, 4)
                        if d == 2 and q4[:, :2].astype(int).tolist() != [[i, k] for i, k, F in pairs]:
                            out.append(('force', '%s: singular pairs %s on process %d' % (label, q4[:, :2].tolist(), rk)))
                        elif d == 2:
                            for (i, k, F), v in zip(pairs, q4[:, 2:]):
                                w, s = cap_force(F, 0, 400)
                                if not (abs(v + w) <= (5e-3 if F.cut < .8 * min(parts[i]['r'], parts[k]['r']) else 3e-2) * s + 1e-10).all():
                                    out.append(('force', '%s: stress of the pair %d, %d on its first particle is %s on process %d, expected %s' % (label, i, k, v.tolist(), rk, (-w).tolist())))
                        # the library integrates over the cap with N steps: less accurate when it reaches the equator
                        wide = any(F.cut > .8 * min(parts[i]['r'], parts[k]['r']) for i, k, F in pairs)
                        for name, txt in (('f1', 'list of forces'), ('f2', 'force of the particles'), ('f3', 'forces with control')):
                            tol = 3e-2 if wide else 5e-3
                            g = np.array(e[name][rk]).reshape(-1, d)
                            if not len(parts) and not len(g):
                                continue
                            err = abs(g - exp).max(1)
                            with np.errstate(all='ignore'):
                                ctx.maxi('worst_force_error', np.nanmax(np.where(siz > 0, err / siz, 0)))
                            m = ~(err <= tol * siz + 1e-10)
                            if m.any():
                                i = int(np.argmax(m))
                                out.append(('force', '%s: singular force (%s) on particle %d got %s on process %d, expected %s' % (label, txt, i, g[i].tolist(), rk, exp[i].tolist())))
                    return out
                ctx.add('part%d' % d, Case(label, lines, {'i': base}, ['o'] + (['s'] if d == 2 else []), j), np_)
    for np_ in (1, 2, 3, 4):
        for _ in range(ctx.k(6, 40)):
            c = coupled_case(ctx, rng, 'dton', np_, sing=True)
            if c:
                ctx.add('part2', c, np_)
                ctx.count('coupled_problems')
                ctx.samples.append(c.label)
    ctx.go(chunk=4, timeout=200)


from checks.coupled_checks import coupled_case  # noqa: E402  (uses the functions above)


# ---------------------------------------------------------------- C26
@check('C26', 'random curvatures, gaps, sliding velocities and points of the gap (on and off the axis, on the walls, at and beyond the cut-off): 2-D values and gradients are compared with the closed form derived independently, 2-D and 3-D '
       'gradients with high-order differences of the velocity, divergences with 0, 3-D pressures with the Reynolds solution; the wall values are compared with the wall velocities; non-trivial = one distinct pair and point',
       ['cut-off parameters equal, as the library uses them', 'points off the axis by at least 0.1 % of the cut-off for differences across the axis (3-D)'])
def c26(ctx):
    rng = ctx.rng
    names = {2: ['ux', 'uz', 'dxux', 'dzux', 'dxuz', 'dzuz', 'div', 'p'],
             3: ['ux', 'uy', 'uz', 'dxux', 'dyux', 'dzux', 'dxuy', 'dyuy', 'dzuy', 'dxuz', 'dyuz', 'dzuz', 'div', 'p']}
    m = ctx.k(1000, 20000)
    for d in (2, 3):
        nm = names[d]
        for b in range(4):
            R = 10 ** rng.uniform(-1.3, .3, (m, 2))
            H, M = 1 / R.T
            a = R.min(1) * 10 ** rng.uniform(-2.5, -.7, m)
            U = rng.normal(size=m)
            cut = np.minimum(R.min(1) * .9, 4 * np.sqrt(a / (H + M) * 2))
            eps = cut ** 2 / 2
            r = cut * rng.choice([1., .3, .02], m) * rng.uniform(.05, .98, m)
            far = rng.random(m) < .08
            r = np.where(far, cut * rng.uniform(1.01, 1.6, m), r)
            z1, z2 = -H * r ** 2 / 2, a + M * r ** 2 / 2
            t = rng.choice([0., 1., -1.], m, p=[.1, .1, .8])
            t = np.where(t < 0, rng.random(m), t)
            z = z1 + t * (z2 - z1)
            th = rng.uniform(0, 2 * np.pi, m)
            th = np.where(rng.random(m) < .3, rng.integers(0, 4, m) * np.pi / 2, th)
            if d == 2:
                r = r * rng.choice([-1., 1.], m)
                X = np.stack([z, r], 1)
                step = np.stack([z2 - z1, cut], 1) * 2e-3
            else:
                X = np.stack([r * np.cos(th), r * np.sin(th), z], 1)
                step = np.stack([np.abs(r), np.abs(r), z2 - z1], 1) * 2e-3
            P = np.stack([H, M, a, U, eps, eps], 1)
            rows = [np.concatenate([P, X], 1)]
            # 6th-order central differences
            for q in range(d):
                for k in (-3, -2, -1, 1, 2, 3):
                    Y = X.copy()
                    Y[:, q] += k * step[:, q]
                    rows.append(np.concatenate([P, Y], 1))
            # double velocity
            rows.append(np.concatenate([np.stack([H, M, a, 2 * U, eps, eps], 1), X], 1))

            def j(res, d=d, nm=nm, P=P, X=X, r=r, z=z, t=t, step=step, far=far, m=m, cut=cut, nrows=len(rows)):
                out = []
                y = res.out['o'].reshape(nrows, m, len(nm))
                H, M, a, U, eps = P.T[:5]
                c = y[0]
                for i in range(m):
                    ctx.seen(d, P[i].tobytes(), X[i].tobytes())
                hgap = a + (H + M) * r ** 2 / 2
                nat = {'u': np.maximum(np.abs(c[:, :d]).max(1), np.abs(U)), 'p': np.abs(U) * cut / a ** 2}

                def test(key, got, exp, scale, tol, what, idx=None):
                    bad = ~(np.abs(got - exp) <= tol * scale)
                    if idx is not None:
                        bad &= idx
                    ctx.count('values_compared', m)
                    if bad.any():
                        i = int(np.argmax(bad))
                        out.append((key, '%dD %s wrong for %d of %d points, first r=%g z=%g (curvatures %g %g gap %g velocity %g): got %.10g expected %.10g' % (d, what, bad.sum(), m, r[i], z[i], H[i], M[i], a[i], U[i], got[i], exp[i])))
                # gradients are the derivatives of the velocity
                for v in range(d):
                    for q in range(d):
                        D = sum(w * (y[1 + 6 * q + 3 + (k - 1)][:, v] - y[1 + 6 * q + 3 - k][:, v]) for k, w in ((1, 45.), (2, -9.), (3, 1.))) / (60 * step[:, q])
                        big = np.max([np.abs(y[1 + 6 * q + k][:, v]) for k in range(6)], axis=0)
                        g = c[:, d + d * v + q]
                        # differences straddling the cut-off are not smooth
                        smooth = np.abs(np.abs(r) - cut) > 8e-3 * cut
                        test('gradient', g, D, np.abs(D) + np.abs(U) / hgap + big / step[:, q] * 1e-6, 2e-5, nm[d + d * v + q] + ' against differences of the velocity', smooth)
                tr = sum(c[:, d + d * v + v] for v in range(d))
                gs = np.abs(c[:, d:d + d * d]).max(1) + np.abs(U) / hgap
                test('divergence', tr, 0 * tr, gs, 1e-8, 'divergence')
                test('divergence', c[:, nm.index('div')], 0 * tr, gs, 1e-8, 'returned divergence')
                z0 = np.zeros(m)
                for k, n_ in enumerate(nm):
                    test('beyond', c[:, k], z0, np.ones(m), 1e-12, n_ + ' beyond the cut-off', far)
                    s = nat['p'] if n_ == 'p' else (nat['u'] if k < d else gs)
                    if n_ != 'div':
                        test('linear', y[-1][:, k], 2 * c[:, k], s, 1e-9, n_ + ' for a double velocity')
                if d == 2:
                    F = lubrication.tangential()(r, z, H, M, a, U, eps)
                    ut, un, utr, utz, unr, unz, p = [np.where(far, 0., f) for f in F]
                    for n_, e in (('uz', ut), ('ux', un), ('dzuz', utr), ('dxuz', utz), ('dzux', unr), ('dxux', unz), ('p', p)):
                        s = np.abs(p) + nat['p'] * 1e-3 if n_ == 'p' else (nat['u'] if n_[0] == 'u' else gs)
                        test('value', c[:, nm.index(n_)], e, s, 1e-7, n_)
                    # tangential velocity of the walls
                    chi = np.where(far, 0., lubrication.chi(r, eps)[0])
                    for w, sg in ((0., -.5), (1., .5)):
                        test('wall', c[:, 1], sg * U * chi, nat['u'], 1e-9, 'velocity on a wall', t == w)
                else:
                    pc = np.where(far, 0., lubrication.chi(r, eps)[0])
                    # pressure of the Reynolds equation for two spheres; the opposite sign is told apart from other differences
                    ref = -pc * 1.2 * U * (H - M) * X[:, 0] / ((H + M) * hgap ** 2)
                    s = np.abs(ref) + nat['p'] * 1e-3
                    ip = nm.index('p')
                    opp = np.abs(c[:, ip] + ref) <= 1e-9 * s
                    test('pressure-sign', c[:, ip], ref, s, 1e-7, 'pressure (opposite sign)', opp)
                    test('value', c[:, ip], ref, s, 1e-7, 'pressure', ~opp)
                    for w, sg in ((0., -.5), (1., .5)):
                        test('wall', c[:, 0], sg * U * pc, nat['u'], 1e-3, 'velocity on a wall', t == w)
                return out
            ctx.add('sing%d' % d, Case('tangential %dD' % d, ['tang in=@i out=@o'], {'i': np.concatenate(rows)}, ['o'], j))
            ctx.samples.append(rows[0][0].tolist())
    ctx.go(chunk=1)
