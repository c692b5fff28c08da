import numpy as np
from vlib.core import check
from vlib.run import Case


def alg(ctx, dim, op, rows, judge, label=None, chunkable=True):
    rows = np.atleast_2d(rows)

    def j(r, rows=rows, judge=judge, op=op):
        y = r.out['o']
        if len(y) % len(rows):
            return [('size', '%s: %d values for %d inputs' % (op, len(y), len(rows)))]
        out = []
        judge(rows, y.reshape(len(rows), -1), out)
        ctx.count('evaluations_compared', len(rows))
        return out
    ctx.add('geom%d' % dim, Case('%s %dD' % (label or op, dim), ['alg op=%s in=@i out=@o' % op], {'i': rows}, ['o'], j))


def expect(ctx, out, op, rows, got, exp, tol=0., scale=None):
    """every row of got equals exp (exactly, or to tol relative to the row's scale)"""
    exp = np.asarray(exp, float).reshape(len(rows), -1)
    for r in rows:
        ctx.seen(op, r.tobytes())
    if got.shape != exp.shape:
        out.append(('size', '%s returns %d values, %d expected' % (op, got.shape[1], exp.shape[1])))
        return
    s = np.maximum(np.abs(exp).max(1), 1e-300)[:, None] if scale is None else np.asarray(scale).reshape(-1, 1)
    ok = (np.abs(got - exp) <= tol * s) if tol else (got == exp)
    if not ok.all():
        i = int(np.argmax(~ok.all(1)))
        out.append((op, '%s: %d of %d inputs wrong, first %s: got %s expected %s' % (op, (~ok.all(1)).sum(), len(rows), rows[i].tolist(), got[i].tolist(), exp[i].tolist())))


# ---------------------------------------------------------------- C19
def rand_boxes(rng, m, d, integer):
    if integer:
        a = rng.integers(-9, 10, (m, d)).astype(float)
        b = a + rng.integers(0, 9, (m, d))
    else:
        a = np.where(rng.random((m, d)) < .5, rng.integers(-4, 5, (m, d)) * .5, rng.normal(size=(m, d)) * 3)
        b = a + np.where(rng.random((m, d)) < .3, rng.integers(0, 6, (m, d)) * .5, rng.random((m, d)) * 5)
    return np.concatenate([a, b], 1)


@check('C19', 'random boxes (integer and real, nested, crossing, touching, disjoint, degenerate, with negative corners), points and index ranges in 2-D and 3-D; every answer is compared with exact interval arithmetic; '
       'non-trivial = one distinct input of one operation', ['boxes have ordered corners'])
def c19(ctx):
    rng = ctx.rng
    m = ctx.k(1500, 20000)
    for d in (2, 3):
        for t in 'di':
            A, B = rand_boxes(rng, m, d, t == 'i'), rand_boxes(rng, m, d, t == 'i')
            # nested and touching pairs on purpose
            k = m // 8
            B[:k, :d] = A[:k, :d] + np.floor((A[:k, d:] - A[:k, :d]) / 3)
            B[:k, d:] = np.maximum(B[:k, :d], A[:k, d:] - np.floor((A[:k, d:] - A[:k, :d]) / 3))
            A[k:2 * k], B[k:2 * k] = B[:k].copy(), A[:k].copy()
            c = rng.integers(0, d, k)
            for i in range(k):   # touching along one direction
                w = B[2 * k + i, d + c[i]] - B[2 * k + i, c[i]]
                B[2 * k + i, c[i]] = A[2 * k + i, d + c[i]]
                B[2 * k + i, d + c[i]] = B[2 * k + i, c[i]] + w
            AB = np.concatenate([A, B], 1)
            lo, hi = np.maximum(A[:, :d], B[:, :d]), np.minimum(A[:, d:], B[:, d:])
            meet = (lo <= hi).all(1)
            alg(ctx, d, 'len' + t, A, lambda r, y, o, d=d, t=t: expect(ctx, o, 'length ' + t, r, y, np.concatenate([r[:, d:] - r[:, :d], np.prod(r[:, d:] - r[:, :d], axis=1)[:, None]], 1), 1e-15))

            def pts(r, y, o, d=d, t=t):
                e = np.stack([np.stack([r[:, (d if (q >> i) & 1 else 0) + i] for i in range(d)], 1) for q in range(2 ** d)], 1)
                expect(ctx, o, 'corners ' + t, r, y, e.reshape(len(r), -1))
            alg(ctx, d, 'points' + t, A, pts)
            alg(ctx, d, 'intersect' + t, AB, lambda r, y, o, e=meet, t=t: expect(ctx, o, 'intersect ' + t, r, y, e))
            alg(ctx, d, 'checkin' + t, AB, lambda r, y, o, e=meet, t=t: expect(ctx, o, 'check_box_inside ' + t, r, y, e))
            alg(ctx, d, 'union' + t, AB, lambda r, y, o, d=d, t=t: expect(ctx, o, 'union ' + t, r, y, np.concatenate([np.minimum(r[:, :d], r[:, 2 * d:3 * d]), np.maximum(r[:, d:2 * d], r[:, 3 * d:])], 1)))
            for op in ('overlap', 'inside'):
                def ov(r, y, o, op=op, t=t, e=np.concatenate([lo, hi], 1), meet=meet, d=d):
                    expect(ctx, o, op + ' ' + t, r[meet], y[meet], e[meet])
                    bad = ~meet & (y[:, :d] <= y[:, d:]).all(1) & (y[:, :d] < y[:, d:]).all(1)
                    if bad.any():
                        o.append((op, '%s %s: disjoint boxes %s have a non-empty overlap %s' % (op, t, r[bad][0].tolist(), y[bad][0].tolist())))
                alg(ctx, d, op + t, AB, ov)
            P = np.stack([np.where(rng.random((m, d)) < .6, A[:, :d] + np.floor(rng.uniform(-1.5, 2.5, (m, d)) * (A[:, d:] - A[:, :d])) if t == 'i' else A[:, :d] + rng.choice([-.3, 0., .4, 1., 1.2], (m, d)) * (A[:, d:] - A[:, :d]), A[:, :d])], 0)[0]
            alg(ctx, d, 'pointin' + t, np.concatenate([A, P], 1), lambda r, y, o, d=d, t=t: expect(ctx, o, 'point_inside ' + t, r, y, ((r[:, 2 * d:] >= r[:, :d]) & (r[:, 2 * d:] < r[:, d:2 * d])).all(1)))
        X = np.where(rng.random((m, d)) < .4, rng.integers(-5, 6, (m, d)), rng.normal(size=(m, d)) * 10 ** rng.uniform(-3, 4, (m, d)))
        alg(ctx, d, 'ceil', X, lambda r, y, o: expect(ctx, o, 'ceil', r, y, np.ceil(r)))
        alg(ctx, d, 'floor', X, lambda r, y, o: expect(ctx, o, 'floor', r, y, np.floor(r)))
        I = rand_boxes(rng, m // 4, d, True)
        neg = rng.random(len(I)) < .15     # empty ranges
        I[neg, d] = I[neg, 0] - rng.integers(0, 3, neg.sum())

        def it(r, I=I, d=d):
            out, y, n = [], r.out['o'].reshape(-1, d), [int(v) for v in r.ev('iterate')['n']]
            p = 0
            for b, k in zip(I, n):
                ax = [np.arange(b[i], b[d + i]) for i in range(d)]
                g = np.meshgrid(*ax[::-1], indexing='ij')[::-1]
                e = np.stack([a.ravel() for a in g], 1)
                v = y[p:p + k]
                p += k
                ctx.seen('iterate', b.tobytes())
                ctx.count('indices_visited', k)
                srt = lambda q: q[np.lexsort(q.T)] if len(q) else q
                if v.shape != e.shape or not (srt(v) == srt(e)).all():
                    out.append(('iterate', 'iteration over %s visits %d points (%d distinct), %d expected once each' % (b.tolist(), k, len(np.unique(v, axis=0)) if k else 0, len(e))))
                    break
            return out
        ctx.add('geom%d' % d, Case('iterate %dD' % d, ['iterate in=@i out=@o'], {'i': I}, ['o'], it))
    ctx.samples.append('boxes such as %s with %s' % (A[0].tolist(), B[0].tolist()))
    ctx.go(chunk=40)


# ---------------------------------------------------------------- C21
def rotation(axis, a):
    x, y, z = axis
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


@check('C21', 'random positions, vectors, forces, velocities, scalars and rotations in 2-D and 3-D: every operator (binary, compound, both operand orders) is compared with its definition; '
       'non-trivial = one distinct input of one operation', ['division by non-zero scalars'])
def c21(ctx):
    rng = ctx.rng
    m = ctx.k(600, 8000)
    for d in (2, 3):
        A, B = (np.where(rng.random((m, d)) < .2, rng.integers(-3, 4, (m, d)), rng.normal(size=(m, d)) * 10 ** rng.uniform(-3, 3, (m, d))) for _ in range(2))
        S = np.where(rng.random(m) < .3, rng.integers(1, 7, m), rng.normal(size=m) * 10 ** rng.uniform(-3, 3, m))[:, None]
        S[S == 0] = 1
        Bn = np.where(B == 0, 1.5, B)
        I, K = rng.integers(-50, 50, (m, d)).astype(float), rng.integers(-50, 50, (m, d)).astype(float)
        two = lambda e: np.concatenate([e, e], 1)
        three = lambda e: np.concatenate([e, e, e], 1)

        def T(op, x, y, e, tol=1e-15):
            alg(ctx, d, op, np.concatenate([x, y], 1) if y is not None else x, lambda r, g, o, e=e, op=op: expect(ctx, o, op, r, g, e, tol, np.maximum(np.abs(e).max(1), np.abs(r).max(1) * (op[1] in '+-' or op[0] == 'c'))))
        T('p+p', A, B, two(A + B))
        T('p-p', A, B, two(A - B))
        T('p*p', A, B, two(A * B))
        T('p*a', A, B, two(A * B))
        T('ip*a', I, B, I * B)
        T('p/a', A, Bn, two(A / Bn))
        T('p+v', A, B, two(A + B))
        T('p+s', A, S, two(A + S))
        T('p-s', A, S, two(A - S))
        T('p/s', A, S, two(A / S))
        T('ip+ip', I, K, I + K)
        T('ip-ip', I, K, I - K)
        T('v+v', A, B, two(A + B))
        T('v-v', A, B, A - B)
        T('v*v', A, B, A * B)
        T('v+u', A, B, A + B)
        T('v-u', A, B, A - B)
        T('u-v', A, B, A - B)
        T('v*s', A, S, three(A * S))
        T('v/s', A, S, two(A / S))
        Z = rng.choice([-7, -3, -1, 1, 2, 3, 10], (m, 1)).astype(float)
        T('v/i', A, Z, A / Z)
        T('-v', A, None, -A)
        T('vecs', A, None, two(A))
        T('u+u', A, B, two(A + B))
        T('f+f', A, B, two(A + B))
        T('f-f', A, B, two(A - B))
        T('f*s', A, S, three(A * S))
        T('f+s', A, S, three(A + S))
        T('ffill', A, S, np.repeat(S, d, 1))
        if d == 2:
            e = (A[:, 0] * B[:, 1] - A[:, 1] * B[:, 0])[:, None]
            sc = np.abs(A).max(1) * np.abs(B).max(1)
            alg(ctx, 2, 'cross', np.concatenate([A, B], 1), lambda r, g, o, e=e, sc=sc: expect(ctx, o, 'cross', r, g, np.concatenate([e, e], 1), 1e-15, sc))
            w = S[:, 0]
            T('rot', S, B, np.stack([-w * B[:, 1], w * B[:, 0], w * B[:, 1], -w * B[:, 0]], 1))
        else:
            sc = np.abs(A).max(1) * np.abs(B).max(1)
            alg(ctx, 3, 'cross', np.concatenate([A, B], 1), lambda r, g, o, e=np.cross(A, B), sc=sc: expect(ctx, o, 'cross', r, g, e, 1e-15, sc))
        # rotations
        Q, E, U = [], [], []
        for i in range(m):
            k = int(rng.choice([1, 2, 2]))
            a = float(rng.choice([rng.uniform(-7, 7), np.pi, np.pi / 2, 0., -np.pi / 3]))
            ax = np.array([0, 0, 1.]) if k == 1 or d == 2 else rng.normal(size=3)
            unit = k == 1 or d == 2 or rng.random() < .7
            ax = ax / np.linalg.norm(ax) if unit else ax
            p = rng.normal(size=d) * 10 ** rng.uniform(-2, 2)
            Q.append([k, a, *ax, *p])
            E.append((rotation(ax / np.linalg.norm(ax), a)[:d, :d] @ p))
            U.append((unit, ax / np.linalg.norm(ax)))

        def qj(r, g, o, E=np.array(E), U=U, d=d):
            P = r[:, 5:]
            s = np.linalg.norm(P, axis=1)
            R, Bk, n2 = g[:, :d], g[:, d:2 * d], g[:, 2 * d]
            u = np.array([q[0] for q in U])
            expect(ctx, o, 'rotation', r[u], R[u], E[u], 4e-15, s[u])
            if not (abs(np.linalg.norm(R, axis=1) / s - 1) < 4e-15).all():
                o.append(('isometry', 'a rotation changes the length of a position: %s' % r[np.argmax(abs(np.linalg.norm(R, axis=1) / s - 1))].tolist()))
            expect(ctx, o, 'inverse rotation', r, Bk, P, 8e-15, s)
            if not (abs(n2 - 1) < 4e-15).all():
                o.append(('unit', 'a quaternion is not unit: %s' % r[np.argmax(abs(n2 - 1))].tolist()))
            if d == 3:
                ax = np.array([q[1] for q in U])
                if not (abs(((R - P) * ax).sum(1)) <= 8e-15 * s).all():
                    o.append(('axis', 'a rotation moves positions along its axis'))
            if not g[:, 2 * d + 1].all():
                o.append(('is_rotate', 'a rotation does not report itself'))
        alg(ctx, d, 'quat', np.array(Q), qj)
        alg(ctx, d, 'quat', np.array([[0, 0, 0, 0, 0] + [1.] * d]), lambda r, g, o, d=d: expect(ctx, o, 'no rotation', r, g[:, :1 * d], np.ones((1, d))) or (g[0, -1] and o.append(('is_rotate', 'the default quaternion reports a rotation'))), label='noquat')
        # regular samplings
        b = rng.normal(size=m)
        e = b + np.where(rng.random(m) < .1, 0, rng.random(m) * 10)
        L = np.stack([b, e, rng.integers(2, 30, m), rng.integers(0, 2, m)], 1)

        def lj(r, L=L):
            out, p, y = [], 0, r.out['o']
            for row, n in zip(L, r.ev('linspace')['n']):
                ex = np.linspace(row[0], row[1], int(row[2]), bool(row[3]))
                v = y[p:p + int(n)]
                p += int(n)
                ctx.seen('linspace', row.tobytes())
                if len(v) != len(ex) or not (abs(v - ex) <= 1e-14 * max(1, abs(ex).max())).all():
                    out.append(('linspace', 'linspace%s gives %s' % (row.tolist(), v.tolist()[:6])))
                    break
            return out
        ctx.add('geom%d' % d, Case('linspace %dD' % d, ['linspace in=@i out=@o'], {'i': L}, ['o'], lj))
    ctx.samples.append(dict(a=A[0].tolist(), b=B[0].tolist(), s=float(S[0, 0])))
    ctx.go(chunk=60)


# ---------------------------------------------------------------- C20
_previous = {}


def rand_shape(rng, d, kind=None):
    old = _previous.get((id(rng), d, kind))
    row = fresh_shape(rng, d, kind)
    if old is not None and rng.random() < .25:
        # the previous shape with one group of its parameters replaced
        k = int(rng.integers(6 if row[0] == 0 else 3))
        a, b = ((1, 1 + d), (1 + d, 3 + 2 * d), (3 + 2 * d, 8 + 2 * d), (2 + d, 1 + 2 * d), (1 + d, 2 + d), (1 + 2 * d, 3 + 2 * d))[k]
        if row[0] == old[0]:
            old = old.copy()
            old[a:b] = row[a:b]
            row = old
    _previous[id(rng), d, kind] = row
    return row.copy()


def fresh_shape(rng, d, kind=None):
    kind = int(rng.random() < .35) if kind is None else kind
    c = np.where(rng.random(d) < .1, 0., rng.normal(size=d) * 2)
    s = 10 ** rng.uniform(-1, .7, d)
    n, e = (float(rng.choice([rng.uniform(1.2, 7), 2., 4.])) for _ in range(2))
    if kind:
        s[:] = s[0]
        n = e = 2.
    elif d == 3 and rng.random() < .3:
        e = n
    k = int(rng.choice([0, 0, 1, 2]))
    a = float(rng.uniform(-4, 4)) if k else 0.
    ax = np.array([0., 0, 1])
    if k == 2 and d == 3:
        ax = rng.normal(size=3)
        ax /= np.linalg.norm(ax)
    return np.concatenate([[kind], c, s, [n, e, k, a], ax])


class Shape:
    def __init__(self, row, d):
        self.d, self.kind, self.c, self.s = d, int(row[0]), row[1:1 + d], row[1 + d:1 + 2 * d]
        self.n, self.e = row[1 + 2 * d:3 + 2 * d]
        k, a, ax = row[3 + 2 * d], row[4 + 2 * d], row[5 + 2 * d:8 + 2 * d]
        self.R = rotation(ax, a)[:d, :d] if k else np.eye(d)
        self.rot = bool(k)

    def implicit(self, x):
        q = abs((x - self.c) @ self.R / self.s)
        if self.d == 2:
            return (q ** self.n).sum(-1)
        return (q[..., 0] ** self.e + q[..., 1] ** self.e) ** (self.n / self.e) + q[..., 2] ** self.n

    def gauge(self, x):
        """1 on the surface, linear along rays"""
        return self.implicit(x) ** (1 / self.n)

    def radial(self, u, v=None):
        C = lambda w, m: np.copysign(abs(np.cos(w)) ** m, np.cos(w))
        S = lambda w, m: np.copysign(abs(np.sin(w)) ** m, np.sin(w))
        if self.d == 2:
            p = np.array([self.s[0] * C(u, 2 / self.n), self.s[1] * S(u, 2 / self.n)])
        else:
            p = np.array([self.s[0] * C(v, 2 / self.n) * C(u, 2 / self.e), self.s[1] * C(v, 2 / self.n) * S(u, 2 / self.e), self.s[2] * S(v, 2 / self.n)])
        return self.R @ p

    def cloud(self, rng, m):
        """points all around, on the surface"""
        q = rng.normal(size=(m, self.d))
        return self.c + q / self.gauge(self.c + q)[:, None]


@check('C20', 'random circles, spheres and super-ellipsoids (exponents 1.2 to 7, any orientation) and random parameters, points and spacings: parametrisation, implicit function, containment, bounding boxes, volume constants and '
       'sampled surfaces are compared with the definition of the shape; non-trivial = one shape with one query',
       ['containment is not judged within 1e-9 of the surface', 'exponents between 1.2 and 7', 'sampling steps between 0.02 and 0.5'])
def c20(ctx):
    rng = ctx.rng
    m = ctx.k(500, 8000)
    for d in (2, 3):
        rows = np.array([rand_shape(rng, d) for _ in range(m)])
        sh = [Shape(r, d) for r in rows]
        big = np.array([max(abs(s.c).max(), s.s.max()) for s in sh])
        ctx.samples.append(rows[0].tolist())

        def cent(r, y, o, sh=sh):
            expect(ctx, o, 'centre and factors', r, y, np.array([np.concatenate([s.c, s.s]) for s in sh]))
        alg(ctx, d, 'centre', rows, cent)
        # containment and implicit function: points at every distance of the centre
        P = np.array([s.c + rng.choice([0., rng.uniform(0, .99), rng.uniform(.99, .9999), rng.uniform(1.0001, 1.01), rng.uniform(1.01, 3)]) * (s.cloud(rng, 1)[0] - s.c) for s in sh])

        def imp(r, y, o, sh=sh, P=P):
            ex = np.array([s.implicit(p) for s, p in zip(sh, P)])
            # compared on the gauge, which is well conditioned
            g = np.array([s.gauge(p) for s, p in zip(sh, P)])
            n = np.array([s.n for s in sh])
            for q in r:
                ctx.seen('implicit', q.tobytes())
            bad = ~((abs(np.abs(y[:, 0]) ** (1 / n) - g) <= 1e-9 * np.maximum(g, 1e-3)))
            if bad.any():
                i = int(np.argmax(bad))
                o.append(('implicit', 'implicit function wrong for %d of %d, first %s: got %g expected %g' % (bad.sum(), len(r), r[i].tolist(), y[i, 0], ex[i])))
            bad = (abs(g - 1) > 1e-9) & (y[:, 1] != (g < 1))
            if bad.any():
                i = int(np.argmax(bad))
                o.append(('contains', 'containment wrong for %d of %d points, first %s: got %g, gauge %g' % (bad.sum(), len(r), r[i].tolist(), y[i, 1], g[i])))
        alg(ctx, d, 'implicit', np.concatenate([rows, P], 1), imp)
        # parametrisation
        t = rng.uniform(-4, 7, (m, 2 if d == 2 else 4))
        pr = np.array([s.radial(*t[i, :d - 1]) for i, s in enumerate(sh)])
        e = np.concatenate([np.array([s.c for s in sh]) + pr, pr, np.array([s.c for s in sh]) + pr, pr, np.full((m, 2), 2.)], 1)
        alg(ctx, d, 'at', np.concatenate([rows, t], 1), lambda r, y, o, e=e, big=big: expect(ctx, o, 'parametrisation', r, y, e, 1e-13, np.maximum(big, 2.)))
        # bounding boxes
        clouds = [s.cloud(rng, 200) for s in sh]

        def bb(r, y, o, sh=sh, clouds=clouds, d=d):
            for q, b, s, c in zip(r, y, sh, clouds):
                ctx.seen('bbox', q.tobytes())
                lo, hi = b[:d], b[d:]
                tol = 1e-9 * s.s.max()
                if not ((c >= lo - tol).all() and (c <= hi + tol).all()):
                    o.append(('bbox', 'bounding box %s of %s misses part of the shape' % (b.tolist(), q.tolist())))
                    break
                half = np.abs(s.R) @ s.s
                if not ((lo >= s.c - half - 1e-9 * half.max()).all() and (hi <= s.c + half + 1e-9 * half.max()).all()):
                    o.append(('bbox', 'bounding box %s of %s is larger than that of its enclosing parallelepiped' % (b.tolist(), q.tolist())))
                    break
        alg(ctx, d, 'bbox', rows, bb)
        h = np.array([s.s.min() * 10 ** rng.uniform(-1, .5, d) for s in sh])

        def ib(r, y, o, sh=sh, h=h, clouds=clouds, d=d):
            for q, b, s, hh, c in zip(r, y, sh, h, clouds):
                ctx.seen('ibox', q.tobytes())
                lo, hi = b[:d], b[d:]
                # grid points inside the shape: indices between the extreme coordinates
                mn, mx = np.ceil(c.min(0) / hh - 1e-9), np.floor(c.max(0) / hh + 1e-9)
                half = np.abs(s.R) @ s.s
                if not ((lo <= mn) | (mn > mx)).all() or not ((hi > mx) | (mn > mx)).all():
                    o.append(('ibox', 'index box %s of %s (h=%s) misses grid points of the shape (%s to %s)' % (b.tolist(), q.tolist(), hh.tolist(), mn.tolist(), mx.tolist())))
                    break
                if not (lo >= np.floor((s.c - half) / hh) - 2).all() or not (hi <= np.ceil((s.c + half) / hh) + 2).all():
                    o.append(('ibox', 'index box %s of %s (h=%s) is far too large' % (b.tolist(), q.tolist(), hh.tolist())))
                    break
        alg(ctx, d, 'ibox', np.concatenate([rows, h], 1), ib)
        R = 10 ** rng.uniform(-2, 1, m)
        k = np.concatenate([rng.normal(size=(m, d)), R[:, None]], 1)
        e = np.stack([2 * np.pi * R, np.pi * R ** 2, 1 / R ** 2, 2 / R ** 2], 1) if d == 2 else np.stack([4 * np.pi * R ** 2, 4. / 3 * np.pi * R ** 3, 1.5 / R ** 2, 2.5 / R ** 2], 1)
        for q, nm in enumerate(('surface', 'volume', 'Cd_R', 'Ci_R')):
            alg(ctx, d, 'const', k, lambda r, y, o, e=e, q=q, nm=nm: expect(ctx, o, nm, r, y[:, q:q + 1], e[:, q:q + 1], 1e-14), label='const ' + nm)
        # sampled surfaces
        ms = ctx.k(120, 1000)
        srows = np.array([rand_shape(rng, d) for _ in range(ms)])
        st = rng.uniform(.02, .5, (ms, d - 1)) if d == 2 else rng.uniform(.1, .5, (ms, 2))
        for i in range(1, ms):      # the steps of the previous shape
            if rng.random() < .5:
                st[i] = st[i - 1]

        def sj(r, srows=srows, st=st, d=d):
            out, p = [], 0
            y = r.out['o'].reshape(-1, d)
            q = np.random.default_rng(3)
            for row, k, n in zip(srows, st, r.ev('sample')['n']):
                s = Shape(row, d)
                x = y[p:p + int(n)]
                p += int(n)
                ctx.seen('sample', row.tobytes(), k.tobytes())
                ctx.count('surface_points', len(x))
                txt = '%s steps %s' % (row.tolist(), k.tolist())
                if not len(x):
                    out.append(('sample', 'no surface point: ' + txt))
                    continue
                if not (abs(s.gauge(x) - 1) < 1e-9).all():
                    out.append(('onsurface', 'a sampled point is off the surface (gauge %g): %s' % (s.gauge(x)[np.argmax(abs(s.gauge(x) - 1))], txt)))
                    continue
                u = (x - s.c) @ s.R / s.s     # reference coordinates
                if abs(u.mean(0)).max() > 1e-9:
                    out.append(('balance', 'sampled points are not balanced around the centre (%s): %s' % (u.mean(0).tolist(), txt)))
                if d == 2:
                    a = np.argsort(np.arctan2(u[:, 1], u[:, 0]))
                    v = u[a]
                    gaps = np.linalg.norm(v - np.roll(v, 1, 0), axis=1)
                    if gaps.min() < 1e-9:
                        out.append(('twice', 'two sampled points coincide: ' + txt))
                    ctx.maxi('largest_2d_gap_over_step', gaps.max() / k[0])
                    if gaps.max() > GAP2 * k[0]:
                        out.append(('gap', 'hole of %.3g between sampled points: %s' % (gaps.max(), txt)))
                else:
                    o = Shape(np.concatenate([[0], np.zeros(3), np.ones(3), [s.n, s.e, 0, 0, 0, 0, 1]]), 3)
                    c = o.cloud(q, 150)
                    dist = np.sqrt(((c[:, None] - u[None]) ** 2).sum(2)).min(1).max()
                    ctx.maxi('largest_3d_hole_over_step', dist / np.hypot(*k))
                    if dist > GAP3 * np.hypot(*k):
                        out.append(('gap', 'hole of %.3g between sampled points: %s' % (dist, txt)))
            return out
        ctx.add('geom%d' % d, Case('sample %dD' % d, ['sample in=@i out=@o'], {'i': np.concatenate([srows, st], 1)}, ['o'], sj))
    ctx.go(chunk=30)


GAP2, GAP3 = 2.5, 1.5
