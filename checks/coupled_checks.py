import numpy as np, scipy.sparse as sp, scipy.sparse.linalg as spl
from vlib.core import check
from vlib.run import Case
from vlib.fem import Ref
from checks.fem_checks import (opts_line, compare, describe, rand_poly, poly_line, poly_eval, bcarg, compatible_bc, LU)
from checks import sing_checks
from checks.part_checks import (fmt, part_lines, rand_parts, inside, cr, wxr, area, volume, q1_matrix, subpoints, layout, ids_field, check_layout,
                                same_everywhere, surf_of, check_surface, cmp)


def top(v):
    return np.max(abs(v), initial=0)


class Coupled:
    """reference of the operators that couple particles and fluid, built from the independent discretisation"""

    def __init__(self, f, kind, own, g, src, parts, scale=4, S=0., V=0.):
        self.S, self.V = S, V    # lubrication correction of the source and of the final flow
        self.f, self.own, self.parts, self.scale = f, own, parts, scale
        nv = self.nv = 2 * f.NV
        A = f.stokes(kind)
        self.D = (own >= 0).ravel()
        k = np.ones(f.N)
        k[:nv][self.D] = 0
        A = sp.diags(k) @ A + sp.diags(1 - k)
        one = np.zeros((f.N, 1))
        one[nv:, 0] = 1.
        self.lu = spl.splu(sp.bmat([[A, sp.csr_matrix(one)], [sp.csr_matrix(one.T), None]], format='csc'))
        self.g = g.ravel()
        self.M = f.vmass()
        self.Msrc = self.M @ src.ravel()

    def attach(self, al, pos, ip):
        self.al, self.pos, self.ip = al, pos, ip
        self.B = q1_matrix(self.f, pos)
        self.nb = np.bincount(ip, minlength=len(self.parts))
        self.w = np.array([area(self.parts[i], 2) / self.nb[i] for i in ip])
        self.xc = self.f.vcoords()[al.reshape(-1, 2)[:, 0] // 2]
        self.own_p = np.argmin([(((self.xc - p['c']) / p['r']) ** 2).sum(1) for p in self.parts], axis=0) if self.parts else np.zeros(len(self.xc), int)
        self.Q = []
        for p in self.parts:
            P = subpoints(self.f, p, self.scale)
            P = P[inside(p, P) == 1]
            self.Q.append((P - p['c'], q1_matrix(self.f, P)))

    def solve(self, b):
        x = self.lu.solve(np.concatenate([b, np.zeros(self.f.NP + 1)]))
        return x[:self.nv], x[self.nv:-1]

    def fluid(self, x, full, weight):
        F = np.zeros(self.nv)
        F[self.al] = x
        if weight:
            for i, p in enumerate(self.parts):
                m = self.own_p == i
                F[self.al.reshape(-1, 2)[m].ravel()] += np.tile(p['rho'] * p['f'], int(m.sum()))
        b = self.M @ F + (self.Msrc + self.S if full else 0)
        b[self.D] = self.g[self.D] if full else 0.
        return self.solve(b)

    def spread(self, G):
        b = (self.B.T @ (G * self.w[:, None])).ravel()
        b[self.D] = 0
        return self.solve(b)[0]

    def surface(self, u):
        return self.B @ u.reshape(-1, 2)

    def sem(self, x, full):
        u, _ = self.fluid(x, full, full)
        G = self.surface(u)
        for i, p in enumerate(self.parts):
            m = self.ip == i
            r = self.pos[m] - p['c']
            G[m] -= G[m].mean(0) + wxr(cr(r, G[m]).mean(0) / p['r'] ** 2, r)
        w = self.spread(G)
        W = w.reshape(-1, 2)
        y = w[self.al].reshape(-1, 2).copy()
        for i, p in enumerate(self.parts):
            r, Q = self.Q[i]
            q = Q @ W
            m = self.own_p == i
            y[m] -= q.mean(0) + 2 / p['r'] ** 2 * wxr(cr(r, q).mean(0), self.xc[m] - p['c'])
        return y.ravel()

    def dton(self, x, full):
        u, _ = self.fluid(x, full, False)
        G = self.surface(u)
        if full:
            for i, p in enumerate(self.parts):
                m = self.ip == i
                G[m] -= p['v'] + wxr(p['w'], self.pos[m] - p['c'])
        return self.spread(G)[self.al]


def coupled_case(ctx, rng, kind, np_, big=False, sing=False):
    lo, hi = (16, 22) if big else (9, 14) if sing else (6, 11)
    n = [int(rng.integers(lo, hi)) for _ in range(2)]
    per = [int(rng.random() < .15), int(rng.random() < .15)]
    if per == [1, 1]:
        per = [0, 1]
    L = [float(np.round(rng.uniform(.7, 1.6), 3)) for _ in range(2)]
    f = Ref(n, per, L)
    for _ in range(50):
        parts = sing_checks.close_parts(rng, f, int(rng.choice([2, 2, 3]))) if sing else rand_parts(rng, f, 3, rmin=1.2, none=.04)
        if parts is None:
            continue
        x = f.vcoords()
        if all((inside(p, x) == 1).any() and not (inside(p, x) == 0).any() and not (inside(p, subpoints(f, p, 4)) == 0).any() for p in parts):
            pairs = sing_checks.pairs_of(parts, f.h[0]) if sing else []
            S, V = sing_checks.singular_source(f, parts, pairs), sing_checks.singular_velocity(f, parts, pairs)
            if S is not None and V is not None:
                break
    else:
        return None
    st = int(rng.integers(2))
    polys = compatible_bc(rng, f)
    src = [rand_poly(rng, 2, 2, 3), rand_poly(rng, 2, 2, 3)]
    hassrc = rng.random() < .75
    bc = [[2 * b, 2 * b + 1] for b in range(4)]
    own = f.dirichlet(bc)
    xy = f.vcoords()
    g = np.zeros((f.NV, 2))
    for b in range(4):
        for c in range(2):
            m = own[:, c] == b
            g[m, c] = poly_eval(polys[2 * b + c], xy[m])
    s = np.stack([poly_eval(q, xy) for q in src], 1) if hassrc else np.zeros((f.NV, 2))
    ref = Coupled(f, 'strain' if st else 'lap', own, g, s, parts, S=S[0].ravel(), V=V.ravel())
    dp = float(np.round(rng.uniform(.15, .5), 3))
    its = ctx.k(25, 60)
    label = kind + (' with singularity' if sing else '') + ' n=%s per=%s L=%s np=%d strain=%d src=%d dpart=%g parts=%s' % (n, per, L, np_, st, hassrc, dp, [(p['c'].round(4).tolist(), round(p['r'], 4)) for p in parts])
    lines = ['clearopt'] + [poly_line(k, q) for k, q in enumerate(polys)] + [poly_line(8 + k, q) for k, q in enumerate(src)]
    o = dict(LU, strain_tensor=st)
    if rng.random() < .4:   # one back-substitution, as in the scripts of the demonstrations
        o['stokes_ksp_type'] = 'preonly'
    o.update({'sem_ksp_type': 'fgmres', 'sem_ksp_rtol': '1e-6', 'sem_ksp_max_it': its, 'dton_ksp_type': 'gmres', 'dton_ksp_rtol': '1e-6', 'dton_ksp_max_it': its})
    times = int(rng.integers(1, 3))
    lines += [opts_line(n, per, L, **o), 'problem bc=%s rhs=%s' % (bcarg(bc), '8,9' if hassrc else '-1,-1')] + part_lines(parts)
    again = rng.random() < .35
    lines += ['%s dpart=%r ids=@ids x=@x twice=%d sing=%d' % (kind, dp, int(rng.random() < .3), sing), '%ssolve out=@o times=%d' % (kind, times)]
    if again:
        lines += ['%sagain out=@o2' % kind]
    lines += ['freeproblem', 'clearopt']

    def j(r, f=f, parts=parts, ref=ref, dp=dp, label=label, kind=kind):
        out = []
        e = r.ev('coupled')
        lay = layout(f, e['y0'])
        al = check_layout(ctx, out, f, parts, lay, label)
        check_surface(ctx, out, f, parts, e, [dp], label)
        if out:
            return out
        S = surf_of(e, 2)
        pos = np.concatenate([q[1] * np.array(f.h) + q[2] for q in S])
        ref.attach(al, pos, np.concatenate([q[0] for q in S]))
        op = getattr(ref, kind)
        cat = lambda v: np.concatenate([np.array(q) for q in v]) if v else np.zeros(0)
        b, x, y = cat(e['rhs']), cat(e['x']), cat(e['y'])
        ctx.seen(label)
        eb = -op(np.zeros(len(al)), True)
        s = max(top(eb), 1e-14)
        bad = ~(abs(b - eb) <= 1e-6 * s)
        ctx.count('operator_applications')
        if bad.any():
            i = int(np.argmax(abs(b - eb)))
            out.append(('rhs', '%s: right-hand side of the coupled problem differs in %d entries, worst at node %s: got %.10g expected %.10g' % (label, bad.sum(), ref.xc[i // 2].tolist(), b[i], eb[i])))
        ey = op(x, False)
        bad = ~(abs(y - ey) <= 1e-6 * max(top(ey), 1e-14))
        ctx.count('operator_applications')
        if bad.any():
            i = int(np.argmax(abs(y - ey)))
            out.append(('operator', '%s: coupled operator differs in %d entries, worst at node %s: got %.10g expected %.10g' % (label, bad.sum(), ref.xc[i // 2].tolist(), y[i], ey[i])))
        q = r.ev('solve')
        xs = cat(q['x'])
        res = np.linalg.norm(op(xs, False) - eb) / max(np.linalg.norm(eb), 1e-300)
        ctx.maxi('worst_residual', res)
        ctx.count('krylov_iterations', q['its'])
        if q['reason'] > 0 and res > 1e-4 or not res < 1.01:
            out.append(('residual', '%s: the returned control leaves a relative residual of %.3g (reason %d, %d iterations)' % (label, res, q['reason'], q['its'])))
        u, p = ref.fluid(xs, True, kind == 'sem')
        u = u + ref.V
        Y = r.out['o']
        ds, su = Y[:ref.nv] - u, max(abs(u).max(), 1e-10)
        ctx.count('solves')
        if not abs(ds).max() <= 1e-6 * su:
            i = int(np.argmax(abs(ds)))
            out.append(('velocity', '%s: final velocity is not the flow driven by the returned control, worst %s got %.10g expected %.10g' % (label, describe(f, i), Y[i], u[i])))
        else:
            pp = Y[ref.nv:] - Y[ref.nv:].mean()
            sp_ = max(abs(p).max(), su)
            if not abs(pp - (p - p.mean())).max() <= 1e-5 * sp_:
                out.append(('pressure', '%s: final pressure differs by %.3g (scale %.3g)' % (label, abs(pp - (p - p.mean())).max(), sp_)))
        e2 = r.ev('again')
        if e2 and not out:
            ctx.count('second_steps')
            b2 = cat(e2['rhs'])
            if not top(b2 - eb) <= 1e-6 * s:
                i = int(np.argmax(abs(b2 - eb)))
                out.append(('again-rhs', '%s: the right-hand side set up again after a solve differs, worst at node %s: got %.10g expected %.10g' % (label, ref.xc[i // 2].tolist(), b2[i], eb[i])))
            else:
                x2 = cat(e2['x'])
                u2 = ref.fluid(x2, True, kind == 'sem')[0] + ref.V
                if not abs(r.out['o2'][:ref.nv] - u2).max() <= 1e-6 * max(abs(u2).max(), 1e-10):
                    out.append(('again-velocity', '%s: the final velocity of a second solve is not the flow driven by its control (%.3g)' % (label, abs(r.out['o2'][:ref.nv] - u2).max())))
                r2 = np.linalg.norm(op(x2, False) - eb) / max(np.linalg.norm(eb), 1e-300)
                if not r2 <= max(1e-4, 1.01 * res):
                    out.append(('again-residual', '%s: relative residual %.3g after a second solve, %.3g after the first' % (label, r2, res)))
        G = ref.surface(u)
        if kind == 'sem':
            same_everywhere(out, label, 'particle velocities', q['vel'])
            same_everywhere(out, label, 'forces', q['forces'])
            V, F, T = np.array(q['vel'][0]).reshape(-1, 2), np.array(q['forces'][0]).reshape(-1, 2), np.array(q['torques'][0])
            xv = xs.reshape(-1, 2)
            for i, pt in enumerate(parts):
                cmp(out, 'newvel', label, 'new velocity of particle %d' % i, V[i], G[ref.ip == i].mean(0), su, 1e-6)
                m = ref.own_p == i
                k = volume(pt, 2)
                sc = max(abs(xv).max() * k, 1e-12)
                cmp(out, 'force', label, 'force on particle %d' % i, F[i], xv[m].mean(0) * k, sc, 1e-6)
                cmp(out, 'torque', label, 'torque on particle %d' % i, T[i], cr(ref.xc[m] - pt['c'], xv[m]).mean() * k, sc * pt['r'], 1e-6)
        return out
    return Case(label, lines, {'x': rng.standard_normal(4 * f.NV), 'ids': ids_field(f)}, ['o', 'o2'], j)


def coupled(ctx, kind):
    rng = ctx.rng
    for np_ in (1, 2, 3, 4):
        for _ in range(ctx.k(12, 80)):
            c = coupled_case(ctx, rng, kind, np_)
            if c:
                ctx.add('part2', c, np_)
                ctx.samples.append(c.label)
    ctx.go(chunk=3, timeout=200)


@check('C14', 'random 2-D problems with one to three free particles (weight, boundary data, source, viscous form) x process counts: right-hand side and operator of the extension method, final flow, '
       'velocities, forces and torques are compared with an independent composition of the reference operators; non-trivial = one coupled problem',
       ['particles are disjoint and inside the box', 'data compatible with incompressibility', 'inner problems solved directly'])
def c14(ctx):
    coupled(ctx, 'sem')


@check('C15', 'random 2-D problems with one to three particles of prescribed rigid motion x process counts: right-hand side and operator of the Dirichlet-to-Neumann method and the final flow are compared with an '
       'independent composition of the reference operators; non-trivial = one coupled problem',
       ['particles are disjoint and inside the box', 'data compatible with incompressibility', 'inner problems solved directly'])
def c15(ctx):
    coupled(ctx, 'dton')
