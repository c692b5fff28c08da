import numpy as np, scipy.sparse as sp, scipy.sparse.linalg as spl
from vlib.core import check
from vlib.run import Case
from vlib.fem import Ref, Plain, npts, solve_reference

NPS2 = [1, 1, 2, 3, 4, 6, 9]
NPS3 = [1, 1, 2, 4, 8, 12]


_previous = {}


def rand_grid(rng, dim, np_, hi=None, periodic=True, lo=3):
    key = (id(rng), dim, np_, hi, periodic, lo)
    big = hi is None and rng.random() < .08
    hi = hi or (14 if dim == 2 else 7)
    per = [int(periodic and rng.random() < .3) for _ in range(dim)]

    def least(d):
        m = max(lo, 4 if per[d] else 2)
        if np_ > 1:
            m = max(m, np_ + 1 + per[d] if dim == 2 else 5)
        return m

    def draw(d):
        return int(rng.integers(least(d), max(least(d) + 1, hi + 1)))

    def length():
        return float(np.round(10 ** rng.uniform(-1, 1), 3)) if rng.random() < .7 else 1.
    n = [draw(d) for d in range(dim)]
    if big:     # one direction with many points
        n[int(rng.integers(dim))] = int(rng.integers(40, 160 if dim == 2 else 70))
    L = [length() for _ in range(dim)]
    old = _previous.get(key)
    if old is not None and rng.random() < .35:
        # a problem that differs from the previous one of the same process in one respect only: whatever
        # the library remembers from that one (and recognises by part of its description) is now wrong
        n2, L2 = n, L
        n, per, L = [list(x) for x in old]
        k, kind = int(rng.integers(dim)), int(rng.integers(5))
        if kind == 0:
            L[k] = L2[k] if L2[k] != L[k] else 1.7 * L[k]
        elif kind == 1:
            n[k] = n2[k]
        elif kind == 2 and periodic:
            per[k] = 1 - per[k]
            if rng.random() < .6:   # with the same number of nodes
                n[k] += 2 * per[k] - 1
        elif kind == 3:
            n, per, L = n[1:] + n[:1], per[1:] + per[:1], L[1:] + L[:1]
        # kind 4: the same grid again, with other data
        n = [max(n[d], least(d)) for d in range(dim)]
    _previous[key] = [list(n), list(per), list(L)]
    return n, per, L


def mesh_line(n, per, L):
    return 'mesh n=%s per=%s L=%s' % (','.join(map(str, n)), ','.join(map(str, per)), ','.join(repr(float(l)) for l in L))


def opts_line(n, per, L, **kw):
    names = 'xyz'
    o = ['m%s=%d' % (names[d], n[d]) for d in range(len(n))] + ['L%s=%r' % (names[d], float(L[d])) for d in range(len(n))]
    o += ['%speriod=%d' % (names[d], per[d]) for d in range(len(n))]
    o += ['%s=%s' % (k, v) for k, v in kw.items()]
    return 'opt ' + ' '.join(o)


def vectors(rng, n, k):
    v = rng.standard_normal((k, n)) * 10 ** rng.uniform(-2, 2, (k, 1))
    return v


def compare(y, ref, scale, tol=1e-12):
    """max error relative to the size of the accumulated terms"""
    err = np.abs(y - ref)
    bad = ~(err <= tol * scale + 1e-300)
    return bad, float(np.max(err / np.maximum(scale, 1e-300))) if err.size else 0.


def describe(f, idx):
    """index in natural ordering -> text"""
    d = f.dim
    if idx < f.NV * d:
        node, c = divmod(idx, d)
        return 'velocity node %s component %d' % (f.vindex()[node].tolist(), c)
    return 'pressure unknown %d' % (idx - f.NV * d)


def apply_judge(ctx, f, M, X, key, off=0):
    absM = abs(M)

    def j(r):
        Y = r.out['o'].reshape(X.shape[0], -1)
        if Y.shape[1] != M.shape[0]:
            return [('size', 'the operator returned %d values, %d expected' % (Y.shape[1], M.shape[0]))]
        out = []
        e = r.ev('apply')
        if e and e['input_changed']:
            out.append(('input', 'applying the operator changed %d entries of its input' % e['input_changed']))
        if e and (e['rows'] != M.shape[0] or e['cols'] != M.shape[1]):
            out.append(('shape', 'operator is %dx%d, expected %dx%d' % (e['rows'], e['cols'], M.shape[0], M.shape[1])))
        for k in range(X.shape[0]):
            ref = M @ X[k]
            scale = np.max(absM @ np.abs(X[k]))
            bad, worst = compare(Y[k], ref, scale)
            ctx.seen(key, k)
            ctx.count('rows_compared', len(ref))
            ctx.maxi('worst_relative_error', worst if worst == worst else 1e300)
            if bad.any():
                i = int(np.argmax(np.where(np.isnan(Y[k]), np.inf, np.abs(Y[k] - ref))))
                out.append(('value', '%s: %d of %d rows differ from the reference operator, worst at %s: got %.12g expected %.12g (scale %.3g)' % (
                    key, int(bad.sum()), len(ref), describe(f, i + off), Y[k][i], ref[i], scale)))
                break
        return out
    return j


# ------------------------------------------------------------------ C01
@check('C01', 'random grids (2-D and 3-D, anisotropic, periodic or not) x process counts; random vectors are applied and compared '
       'row by row with an independently assembled finite-element operator; non-trivial = every comparison of a dense random vector',
       ['user meshes have at least 3 points per direction (4 when periodic)', 'PETSc linear algebra is trusted'])
def c01(ctx):
    rng = ctx.rng
    for dim, nps, count in ((2, NPS2, ctx.k(24, 160)), (3, NPS3, ctx.k(9, 56))):
        for np_ in nps:
            for _ in range(count):
                n, per, L = rand_grid(rng, dim, np_)
                f = Ref(n, per, L)
                X = vectors(rng, f.N, 2)
                for op, M, sl, off in (('stokes_lap', f.stokes('lap'), slice(None), 0), ('stokes_strain', f.stokes('strain'), slice(None), 0)) + (
                        (('vel_lap', f.lap(), slice(0, f.NV * dim), 0), ('vel_strain', f.strain(), slice(0, f.NV * dim), 0)) if rng.random() < .4 else ()):
                    Xs = np.ascontiguousarray(X[:, sl])
                    key = '%dD %s n=%s per=%s L=%s' % (dim, op, n, per, L)
                    ctx.add('fem%d' % dim, Case(key + ' np=%d' % np_, [mesh_line(n, per, L), 'apply op=%s in=@i out=@o' % op], {'i': Xs}, ['o'],
                                                apply_judge(ctx, f, M, Xs, key + ' np=%d' % np_, off)), np_)
                ctx.samples.append(dict(n=n, per=per, L=L, np=np_))
    ctx.go()


# ------------------------------------------------------------------ C02
@check('C02', 'random 2-D grids x process counts x both viscous forms: assembled system and preconditioner (with and without boundary rows) are '
       'applied to random vectors and compared with the matrix-free operator of the library and with the independent reference; allocation counters are read back',
       ['two-dimensional problems (the only dimension with assembly)', 'every non-periodic border is a Dirichlet border, as the assembly documents'])
def c02(ctx):
    rng = ctx.rng
    for np_ in NPS2:
        for _ in range(ctx.k(16, 120)):
            n, per, L = rand_grid(rng, 2, np_)
            st = int(rng.integers(2))
            f = Ref(n, per, L)
            kind = 'strain' if st else 'lap'
            X = vectors(rng, f.N, 2)
            S, Pm = f.stokes(kind), sp.block_diag([f.strain() if st else f.lap(), f.pmass()], format='csr')
            own = (f.dirichlet([[0, 0]] * 4) >= 0).ravel()
            keep = np.ones(f.N)
            keep[:own.size][own] = 0.
            Z, I = sp.diags(keep), sp.diags(1 - keep)
            Sb, Pb = (Z @ S + I).tocsr(), (Z @ Pm + I).tocsr()
            label = 'assembled %s n=%s per=%s L=%s np=%d' % (kind, n, per, L, np_)
            lines = ['fn k=0 t=1:0:0', opts_line(n, per, L, assembling=1, strain_tensor=st), 'problem bc=0,0,0,0,0,0,0,0',
                     'assemble in=@i out=@o', 'assemble diag=1 in=@i out=@p', 'apply op=A in=@i out=@A', 'apply op=P in=@i out=@P',
                     'apply op=stokes_%s bc=0,0,0,0,0,0,0,0 in=@i out=@m' % kind, 'matinfo op=A', 'matinfo op=P', 'freeproblem']

            def j(r, f=f, X=X, S=S, Pm=Pm, Sb=Sb, Pb=Pb, label=label):
                out = []
                for nm, M, what in (('o', S, 'assembled system without boundary rows'), ('p', Pm, 'assembled preconditioner without boundary rows'),
                                    ('A', Sb, 'assembled system'), ('P', Pb, 'assembled preconditioner'), ('m', Sb, 'matrix-free system')):
                    Y = r.out[nm].reshape(X.shape[0], -1)
                    for k in range(X.shape[0]):
                        ref = M @ X[k]
                        sc = np.max(abs(S) @ abs(X[k]))
                        bad, w = compare(Y[k], ref, sc)
                        ctx.seen(label, nm, k)
                        ctx.count('rows_compared', len(ref))
                        if bad.any():
                            i = int(np.argmax(np.abs(Y[k] - ref)))
                            out.append(('value-' + nm, '%s: %s differs from the reference in %d rows, worst %s: got %.12g expected %.12g' % (label, what, bad.sum(), describe(f, i), Y[k][i], ref[i])))
                            break
                for e in r.evs('matinfo') + r.evs('assemble'):
                    ctx.count('allocation_reports')
                    if e['mallocs'] != 0:
                        out.append(('malloc', '%s: %s mallocs during assembly, the preallocation was too small' % (label, e['mallocs'])))
                    if e['nz_used'] > e['nz_alloc']:
                        out.append(('alloc', '%s: %s' % (label, e)))
                return out
            ctx.add('fem2', Case(label, lines, {'i': X}, ['o', 'p', 'A', 'P', 'm'], j), np_)
            ctx.samples.append(dict(n=n, per=per, L=L, np=np_, kind=kind))
    ctx.go(chunk=6)


# ------------------------------------------------------------------ C03
def rand_poly(rng, dim, deg=3, terms=4):
    t = []
    for _ in range(terms):
        t.append((float(np.round(rng.uniform(-2, 2), 6)), [int(e) for e in rng.multinomial(int(rng.integers(0, deg + 1)), [1. / dim] * dim)]))
    return t


def poly_line(k, t):
    return 'fn k=%d t=%s' % (k, ','.join(':'.join([repr(float(c))] + [str(e) for e in ex]) for c, ex in t))


def poly_eval(t, x):
    return sum(c * np.prod([x[:, d] ** ex[d] for d in range(x.shape[1])], axis=0) for c, ex in t)


@check('C03', 'random grids x process counts: velocity/pressure/composite mass operators, operator diagonals and source right-hand sides are compared with exact '
       'integrals of the reference basis; null source components and pre-existing right-hand side content included',
       ['diagonals are those of the operators before boundary rows', 'sources are evaluated at the velocity nodes'])
def c03(ctx):
    rng = ctx.rng
    for dim, nps, count in ((2, NPS2, ctx.k(16, 120)), (3, NPS3, ctx.k(20, 160))):
        for np_ in nps:
            for _ in range(count):
                n, per, L = rand_grid(rng, dim, np_)
                f = Ref(n, per, L)
                base = '%dD n=%s per=%s L=%s np=%d' % (dim, n, per, L, np_)
                X = vectors(rng, f.N, 2)
                Mv, Mp, Ma = f.vmass(), f.pmass(), f.massall()
                nv = f.NV * dim
                tg = 'fem%d' % dim
                Xv, Xp = np.ascontiguousarray(X[:, :nv]), np.ascontiguousarray(X[:, nv:])
                ml = mesh_line(n, per, L)
                ctx.add(tg, Case('vmass ' + base, [ml, 'apply op=vel_mass in=@i out=@o'], {'i': Xv}, ['o'], apply_judge(ctx, f, Mv, Xv, 'velocity mass ' + base)), np_)
                ctx.add(tg, Case('pmass ' + base, [ml, 'apply op=pres_mass in=@i out=@o'], {'i': Xp}, ['o'], apply_judge(ctx, f, Mp, Xp, 'pressure mass ' + base, nv)), np_)
                ctx.add(tg, Case('mass ' + base, [ml, 'massmat in=@i out=@o'], {'i': X}, ['o'], apply_judge(ctx, f, Ma, X, 'composite mass ' + base)), np_)
                for op, M, off in (('vel_lap', f.lap(), 0), ('vel_mass', Mv, 0), ('pres_mass', Mp, nv), ('all_mass', Ma, 0)):
                    def j(r, M=M, op=op, f=f, off=off, base=base):
                        d = M.diagonal()
                        y = r.out['o']
                        ctx.seen('diag', op, base)
                        bad, w = compare(y, d, abs(d).max())
                        if bad.any():
                            i = int(np.argmax(np.abs(y - d)))
                            return [('diag', 'diagonal of %s (%s): %d entries wrong, worst %s got %.12g expected %.12g' % (op, base, bad.sum(), describe(f, i + off), y[i], d[i]))]
                    ctx.add(tg, Case('diag %s %s' % (op, base), [ml, 'massdiag out=@o' if op == 'all_mass' else 'diag op=%s out=@o' % op], {}, ['o'], j), np_)
                # source term: rhs0 + M f(nodes)
                polys = [rand_poly(rng, dim) for _ in range(dim)]
                slots = [k if rng.random() < .8 else -1 for k in range(dim)]
                src = np.zeros((f.NV, dim))
                for c in range(dim):
                    if slots[c] >= 0:
                        src[:, c] = poly_eval(polys[c], f.vcoords())
                x0 = vectors(rng, f.N, 1)[0] * (rng.random() < .5)
                ref = x0.copy()
                ref[:nv] += Mv @ src.ravel()
                sc = max(np.max(abs(Mv) @ abs(src.ravel())), 1e-30)

                def js(r, ref=ref, x0=x0, f=f, base=base, sc=sc, slots=slots):
                    y = r.out['o']
                    ctx.seen('source', base, str(slots))
                    bad, w = compare(y, ref, sc + abs(x0).max(), 1e-12)
                    if bad.any():
                        i = int(np.argmax(np.abs(y - ref)))
                        return [('source', 'source right-hand side %s components %s: %d entries wrong, worst %s got %.12g expected %.12g' % (base, slots, bad.sum(), describe(f, i), y[i], ref[i]))]
                ctx.add(tg, Case('source ' + base, [ml] + [poly_line(k, polys[k]) for k in range(dim)] + ['setrhs in=@i out=@o rhs=' + ','.join(map(str, slots))], {'i': x0}, ['o'], js), np_)
                ctx.samples.append(dict(n=n, per=per, L=L, np=np_))
    ctx.go(chunk=16)


# ------------------------------------------------------------------ C04
def rand_bc(rng, dim, full=False):
    """per border, per component: slot or -1"""
    if full:
        return [[b * dim + c for c in range(dim)] for b in range(2 * dim)]
    p = rng.choice([.3, .7, 1.])
    k = 2 * dim if rng.random() < .7 else int(rng.integers(1, 2 * dim))    # borders that the table mentions
    return [[(b * dim + c) if b < k and rng.random() < p else -1 for c in range(dim)] for b in range(2 * dim)]


def bcarg(bc):
    bc = list(bc)
    while len(bc) > 1 and all(s < 0 for s in bc[-1]):    # trailing borders without condition are left out of the table
        bc.pop()
    return ','.join(str(s) for b in bc for s in b)


@check('C04', 'random grids x process counts x random per-border/per-component conditions (null included): values written by the right-hand-side, homogeneous and '
       'copy variants and by the matrix-free operators are compared bit for bit at every node with the specified border value, and with the previous content elsewhere',
       ['borders are applied in the order x-, x+, y-, y+, z-, z+ and the last one decides at shared nodes'])
def c04(ctx):
    rng = ctx.rng
    for dim, nps, count in ((2, NPS2, ctx.k(20, 160)), (3, NPS3, ctx.k(9, 56))):
        for np_ in nps:
            for _ in range(count):
                n, per, L = rand_grid(rng, dim, np_)
                f = Ref(n, per, L)
                bc = rand_bc(rng, dim)
                polys = [rand_poly(rng, dim) for _ in range(2 * dim * dim)]
                fl = [poly_line(k, p) for k, p in enumerate(polys)]
                own = f.dirichlet(bc)
                X = vectors(rng, f.N, 1)[0]
                S = vectors(rng, f.N, 1)[0]
                nv = f.NV * dim
                base = '%dD n=%s per=%s L=%s np=%d bc=%s' % (dim, n, per, L, np_, bcarg(bc))
                ml = mesh_line(n, per, L)
                xy = f.vcoords()
                for kind in ('func', 'null', 'copy'):
                    ref = X[:nv].reshape(f.NV, dim).copy()
                    for c in range(dim):
                        for b in range(2 * dim):
                            m = own[:, c] == b
                            if not m.any():
                                continue
                            if kind == 'func':
                                ref[m, c] = poly_eval(polys[bc[b][c]], xy[m])
                            elif kind == 'null':
                                ref[m, c] = 0.
                            else:
                                ref[m, c] = S[:nv].reshape(f.NV, dim)[m, c]
                    full = np.concatenate([ref.ravel(), X[nv:]])

                    def j(r, full=full, own=own, X=X, kind=kind, base=base, f=f, nv=nv):
                        y = r.out['o']
                        out = []
                        ctx.seen(kind, base)
                        ctx.count('nodes_compared', len(y))
                        free = np.ones(len(full), bool)
                        free[:nv] = (own < 0).ravel()
                        ctx.count('prescribed_values', int((~free).sum()))
                        ch = free & (y != X)
                        if ch.any():
                            i = int(np.argmax(ch))
                            out.append(('touched', '%s (%s): %d free values changed, first %s %.12g -> %.12g' % (kind, base, ch.sum(), describe(f, i), X[i], y[i])))
                        tol = 1e-12 * (1 + abs(full)) if kind == 'func' else 0.
                        bad = ~free & ~(abs(y - full) <= tol)
                        if bad.any():
                            i = int(np.argmax(bad))
                            out.append(('value', '%s (%s): %d prescribed values wrong, first %s got %.15g expected %.15g (border %d)' % (kind, base, bad.sum(), describe(f, i), y[i], full[i], own.ravel()[i])))
                        return out
                    ctx.add('fem%d' % dim, Case('%s %s' % (kind, base), fl + [ml, 'bcvec kind=%s bc=%s in=@i src=@s out=@o' % (kind, bcarg(bc))], {'i': X, 's': S}, ['o'], j), np_)
                # rows of the matrix-free operators
                keep = np.ones(f.N)
                keep[:nv][(own >= 0).ravel()] = 0.
                for op, M in (('stokes_lap', f.stokes('lap')), ('stokes_strain', f.stokes('strain')), ('vel_lap', f.lap()), ('vel_strain', f.strain())):
                    if rng.random() < .5:
                        continue
                    k = keep[:M.shape[0]]
                    B = (sp.diags(k) @ M + sp.diags(1 - k)).tocsr()
                    Xo = np.ascontiguousarray(X[None, :M.shape[0]])
                    key = '%s with conditions %s' % (op, base)
                    ctx.add('fem%d' % dim, Case(key, [ml, 'apply op=%s bc=%s in=@i out=@o' % (op, bcarg(bc)), ] if False else fl + [ml, 'apply op=%s bc=%s in=@i out=@o' % (op, bcarg(bc))],
                                                {'i': Xo}, ['o'], apply_judge(ctx, f, B, Xo, key)), np_)
                ctx.samples.append(dict(n=n, per=per, L=L, np=np_, bc=bc))
    ctx.go(chunk=14)


# ------------------------------------------------------------------ C05 mesh
@check('C05', 'random grids x process counts: recorded ownership, element and ghost ranges of every process are checked for exact coverage and nesting; '
       'non-trivial = meshes whose partition was fully reconstructed',
       ['the process grid is chosen by PETSc'])
def c05(ctx):
    rng = ctx.rng
    for dim, nps, count in ((2, [1, 2, 3, 4, 5, 6, 8, 11], ctx.k(30, 240)), (3, [1, 2, 4, 6, 8, 12], ctx.k(20, 160))):
        for np_ in nps:
            for i in range(count):
                n, per, L = rand_grid(rng, dim, np_, hi=30 if dim == 2 else 12)
                label = '%dD n=%s per=%s np=%d' % (dim, n, per, np_)

                def boxes(cov, e, shape, lo, size, dim=dim):
                    sl = tuple(slice(e[lo + d], e[lo + d] + e[size + d]) for d in range(dim))
                    cov[sl] += 1

                def j(r, n=n, per=per, label=label, np_=np_, dim=dim, boxes=boxes):
                    out = []
                    e = r.ev('mesh')
                    ctx.seen(label)
                    npr = [npts(n[d], per[d])[0] for d in range(dim)]
                    nv = [npts(n[d], per[d])[1] for d in range(dim)]
                    for nm, shape, dof in (('vel', nv, dim), ('pres', npr, 1)):
                        infos = [[int(v) for v in q] for q in e[nm]]
                        cov = np.zeros(shape, int)
                        for q in infos:
                            if q[1] != dof or q[2:2 + dim] != shape:
                                return out + [('size', '%s: %s grid is %s x %d components, expected %s x %d' % (label, nm, q[2:2 + dim], q[1], shape, dof))]
                            if [int(b != 0) for b in q[11:11 + dim]] != [int(p) for p in per]:
                                out.append(('period', '%s: %s boundary kinds %s' % (label, nm, q[11:11 + dim])))
                            boxes(cov, q, shape, 5, 8)
                            ctx.count('ownership_ranges')
                            # one ghost layer towards every neighbour
                            for d in range(dim):
                                s, m, gs, gm = q[5 + d], q[8 + d], q[14 + d], q[17 + d]
                                wl = 1 if (per[d] or s > 0) else 0
                                wr = 1 if (per[d] or s + m < shape[d]) else 0
                                if (gs, gm) != (s - wl, m + wl + wr):
                                    out.append(('ghost', '%s: %s ghost range of a process owning [%d,%d) is [%d,%d)' % (label, nm, s, s + m, gs, gs + gm)))
                        if (cov != 1).any():
                            out.append(('cover', '%s: %s points owned by 0 or several processes: %s' % (label, nm, np.argwhere(cov != 1)[:3].tolist())))
                        # iteration boxes: all owned points / every element exactly once
                        pts, el = np.zeros(shape, int), np.zeros([2 * (n[d] - 1) if nm == 'vel' else n[d] - 1 for d in range(dim)], int)
                        for q, b in zip(infos, e[nm + '_pts']):
                            b = [int(x) for x in b]
                            if b[:dim] != q[5:5 + dim] or [b[dim + d] - b[d] for d in range(dim)] != q[8:8 + dim]:
                                out.append(('pts', '%s: %s point box %s for ownership %s' % (label, nm, b, q[5:11])))
                            pts[tuple(slice(b[d], b[dim + d]) for d in range(dim))] += 1
                        for b in e[nm + '_elem']:
                            b = [int(x) for x in b]
                            if any(b[dim + d] > el.shape[d] for d in range(dim)):
                                out.append(('elem', '%s: %s element box %s exceeds %s' % (label, nm, b, el.shape)))
                            el[tuple(slice(b[d], max(b[d], b[dim + d])) for d in range(dim))] += 1
                        if (pts != 1).any():
                            out.append(('pts', '%s: %s point boxes do not cover the grid once' % (label, nm)))
                        if (el != 1).any():
                            out.append(('elem', '%s: %s elements visited 0 or several times: %s' % (label, nm, np.argwhere(el != 1)[:3].tolist())))
                    # nesting: the velocity points of a process refine its pressure points
                    for q, p in zip(e['vel'], e['pres']):
                        for d in range(dim):
                            ps, pm = int(p[5 + d]), int(p[8 + d])
                            vs, vm = int(q[5 + d]), int(q[8 + d])
                            last = (not per[d]) and ps + pm == npr[d]
                            if vs != 2 * ps or vm != 2 * pm - (1 if last else 0):
                                out.append(('nest', '%s: process owning pressure [%d,%d) owns velocity [%d,%d) in direction %d' % (label, ps, ps + pm, vs, vs + vm, d)))
                    for a, b in (('vel_elem', 'vel_elem1'), ('pres_pts', 'pres_pts1')):
                        if e[a] != e[b]:
                            out.append(('box', '%s: bounds through the composite and the single mesh differ' % label))
                    if e['vel_global'] != nv or [int(b != 0) for b in e['vel_btype']] != [int(p) for p in per]:
                        out.append(('global', '%s: global bounds %s types %s' % (label, e['vel_global'], e['vel_btype'])))
                    tot = int(np.prod(nv)) * dim + int(np.prod(npr))
                    for s in e['sizes']:
                        if int(s[1]) != tot or int(s[0]) != int(s[2]):
                            out.append(('sizes', '%s: sizes %s, vector %d' % (label, s, tot)))
                    if sum(int(s[0]) for s in e['sizes']) != tot:
                        out.append(('sizes', '%s: local sizes do not add up' % label))
                    if len(r.evs('mesh')) > 1:
                        q = r.ev('mesh', 1)
                        shape = [n[d] - per[d] for d in range(dim)]
                        cov = np.zeros(shape, int)
                        for x in q['vel']:
                            x = [int(v) for v in x]
                            if x[2:2 + dim] != shape or x[1] != 1:
                                return out + [('lap', '%s: scalar mesh is %s x %d' % (label, x[2:2 + dim], x[1]))]
                            if [int(b != 0) for b in x[11:11 + dim]] != [int(p) for p in per]:
                                out.append(('lap', '%s: scalar mesh has boundary kinds %s' % (label, x[11:11 + dim])))
                            for d in range(dim):
                                b, m, gs, gm = x[5 + d], x[8 + d], x[14 + d], x[17 + d]
                                wl, wr = int(per[d] or b > 0), int(per[d] or b + m < shape[d])
                                if (gs, gm) != (b - wl, m + wl + wr):
                                    out.append(('lap', '%s: scalar mesh: ghost range of a process owning [%d,%d) is [%d,%d)' % (label, b, b + m, gs, gs + gm)))
                            boxes(cov, x, shape, 5, 8)
                        if (cov != 1).any():
                            out.append(('lap', '%s: scalar mesh not covered once' % label))
                        if any(int(s[1]) != int(np.prod(shape)) for s in q['sizes']):
                            out.append(('lap', '%s: scalar mesh sizes %s' % (label, q['sizes'])))
                    return out
                ctx.add('fem%d' % dim, Case(label, [mesh_line(n, per, L), 'lapmesh n=%s per=%s' % (','.join(map(str, n)), ','.join(map(str, per)))], judge=j), np_)
                ctx.samples.append(dict(n=n, per=per, np=np_))
    ctx.go(chunk=30)


# ------------------------------------------------------------------ C06 ghost exchange
@check('C06', 'random grids x process counts: every ghosted value seen by every process is compared with the owner value, and additive contributions of all '
       'processes to all ghosted points are compared with an independent sum; non-trivial = (grid, process count) pairs',
       ['values are written through the mesh-aware vector accessor'])
def c06(ctx):
    rng = ctx.rng
    for dim, nps, count in ((2, [1, 2, 3, 4, 6], ctx.k(20, 160)), (3, [1, 2, 4, 8], ctx.k(9, 64))):
        for np_ in nps:
            for _ in range(count):
                n, per, L = rand_grid(rng, dim, np_, hi=9 if dim == 2 else 6)
                f = Ref(n, per, L)
                X = vectors(rng, f.N, 1)[0]
                label = '%dD n=%s per=%s np=%d' % (dim, n, per, np_)

                def j(r, f=f, X=X, label=label, np_=np_, dim=dim):
                    out = []
                    e = r.ev('ghost')
                    nv = f.NV * dim
                    add = np.zeros(f.N)
                    for nm, off, shape, dof in (('vel', 0, f.nv, dim), ('pres', nv, f.npr, 1)):
                        for rk, rec in enumerate(e[nm]):
                            a = np.array(rec, float).reshape(-1, 6)
                            idx = np.zeros(len(a), int)
                            for d in range(dim - 1, -1, -1):
                                idx = idx * shape[d] + (a[:, d].astype(int) % shape[d])
                            g = off + idx * dof + a[:, 3].astype(int)
                            ctx.count('ghosted_values', len(a))
                            bad = a[:, 4] != X[g]
                            if bad.any():
                                i = int(np.argmax(bad))
                                out.append(('ghost', '%s: process %d sees %.12g at %s point %s component %d, owner has %.12g' % (label, rk, a[i, 4], nm, a[i, :dim].astype(int).tolist(), a[i, 3], X[g[i]])))
                            o = ~np.isnan(a[:, 5])
                            if (a[o, 5] != X[g[o]]).any():
                                out.append(('global', '%s: process %d reads wrong owned %s values' % (label, rk, nm)))
                            v = 1 + .5 * a[:, 3] + .001 * a[:, 0] + .0625 * a[:, 1] + .125 * a[:, 2] + 10. * rk
                            np.add.at(add, g, v)
                        ctx.seen(label, nm)
                    y = r.out['o']
                    bad = ~(abs(y - add) <= 1e-12 * (1 + abs(add)))
                    if bad.any():
                        i = int(np.argmax(bad))
                        out.append(('sum', '%s: %d additive sums wrong, first %s got %.12g expected %.12g' % (label, bad.sum(), describe(f, i), y[i], add[i])))
                    exp0, exp1 = 4. * nv + f.NP, nv + 5. * f.NP
                    if e['fill0'] != exp0 or e['fill1'] != exp1:
                        out.append(('fill', '%s: filling one field changed the other (%s, %s), expected (%s, %s)' % (label, e['fill0'], e['fill1'], exp0, exp1)))
                    return out
                ctx.add('fem%d' % dim, Case(label, [mesh_line(n, per, L), 'ghost in=@i out=@o'], {'i': X}, ['o'], j), np_)
                ctx.samples.append(dict(n=n, per=per, np=np_))
    ctx.go(chunk=12)


# ------------------------------------------------------------------ C07 solve
def compatible_bc(rng, f):
    """Dirichlet data on every non-periodic border whose discrete flux vanishes: a rigid/linear divergence-free background
    plus tangential lids vanishing at the corners."""
    a, b, c0, c1 = [float(np.round(v, 6)) for v in rng.uniform(-1, 1, 4)]
    Lx, Ly = f.L
    u = [(c0, [0, 0])]
    v = [(c1, [0, 0])]
    if not f.per[1]:
        u.append((b, [0, 1]))
    if not f.per[0]:
        v.append((-b, [1, 0]))
    if not (f.per[0] or f.per[1]):
        u.append((a, [1, 0]))
        v.append((-a, [0, 1]))
    s0, s1, s2, s3 = [float(np.round(v_, 6)) for v_ in rng.uniform(-2, 2, 4) * (rng.random(4) < .7)]
    lidx = lambda s: [(s / Lx, [1, 0]), (-s / Lx ** 2, [2, 0])] if not f.per[0] else [(s, [0, 0])]
    lidy = lambda s: [(s / Ly, [0, 1]), (-s / Ly ** 2, [0, 2])] if not f.per[1] else [(s, [0, 0])]
    # slots: border b, component c
    polys = []
    for bd in range(4):
        polys.append(u + (lidx([s0, s1][bd - 2]) if bd >= 2 else []))
        polys.append(v + (lidy([s2, s3][bd]) if bd < 2 else []))
    return polys


LU = dict(assembling=1, stokes_ksp_type='gmres', stokes_pc_type='lu', stokes_pc_factor_mat_solver_type='superlu_dist', stokes_ksp_rtol='1e-11', stokes_ksp_atol='1e-14', stokes_ksp_max_it=100)
SOLVERS = [
    ('direct', LU),
    # what the scripts of the demonstrations ask for
    ('preonly-lu', dict(assembling=1, stokes_ksp_type='preonly', stokes_pc_type='lu')),
    ('assembled-gmres-none', dict(assembling=1, stokes_ksp_type='gmres', stokes_pc_type='none', stokes_ksp_rtol='1e-11', stokes_ksp_gmres_restart=200, stokes_ksp_gmres_cgs_refinement_type='refine_always', stokes_ksp_max_it=4000)),
    ('assembled-gmres-jacobi', dict(assembling=1, stokes_ksp_type='gmres', stokes_pc_type='jacobi', stokes_ksp_rtol='1e-11', stokes_ksp_gmres_restart=200, stokes_ksp_gmres_cgs_refinement_type='refine_always', stokes_ksp_max_it=4000)),
    ('free-gmres-none', dict(assembling=0, stokes_ksp_type='gmres', stokes_pc_type='none', stokes_ksp_rtol='1e-11', stokes_ksp_gmres_restart=200, stokes_ksp_gmres_cgs_refinement_type='refine_always', stokes_ksp_max_it=4000)),
    ('pmm', dict(assembling=0, PMM=1, stokes_ksp_rtol='1e-10', stokes_ksp_max_it=2000,
                 # bounds on the inner iterations: their stagnation (coarse CG on a non-symmetric operator) costs time, not accuracy
                 stokes_fieldsplit_0_ksp_max_it=25, stokes_fieldsplit_0_mg_coarse_ksp_max_it=60)),
]


@check('C07', 'random 2-D problems (grid, aspect, periodicity, viscous form, compatible boundary data, source) solved by every solver configuration on several '
       'process counts; the returned fields are compared with an independent direct solution of the same user data',
       ['data compatible with incompressibility', 'pressure is compared up to a constant', 'multigrid configurations use grids whose intervals can be halved'])
def c07(ctx):
    rng = ctx.rng
    for np_ in [1, 2, 3, 4]:
        for name, opt in SOLVERS:
            for _ in range(ctx.k(10 if name == 'pmm' else 8, 50)):
                if name == 'pmm':
                    n = [int(rng.choice([5, 9, 13, 17])), int(rng.choice([5, 9, 13]))]
                    per = [int(rng.random() < .25), 0]
                    r_ = max(n) / min(n)
                    L = [1., 1.] if r_ < 1.5 else [float(n[0] - 1) / 8, float(n[1] - 1) / 8]
                else:
                    n, per, L = rand_grid(rng, 2, np_, hi=9)
                    if per == [1, 1]:
                        per = [1, 0]
                    L = [float(np.round(rng.uniform(.5, 2), 3)) for _ in range(2)]
                if np_ > 1:
                    n = [max(v, 5) for v in n]
                st = int(rng.integers(2))
                kind = 'strain' if st else 'lap'
                f = Ref(n, per, L)
                polys = compatible_bc(rng, f)
                src = [rand_poly(rng, 2, 2, 3), rand_poly(rng, 2, 2, 3)]
                hassrc = rng.random() < .75
                if np_ == 1 and f.dim == 2 and (per[0] or per[1]):
                    pass
                bc = [[2 * b, 2 * b + 1] for b in range(4)]
                own = f.dirichlet(bc)
                xy = f.vcoords()
                g = np.zeros((f.NV, 2))
                for b in range(4):
                    for c in range(2):
                        m = own[:, c] == b
                        g[m, c] = poly_eval(polys[2 * b + c], xy[m])
                s = np.stack([poly_eval(q, xy) for q in src], 1) if hassrc else np.zeros((f.NV, 2))
                u, p, lam, b = solve_reference(f, kind, own, g, s)
                label = '%s %s n=%s per=%s L=%s np=%d src=%d' % (name, kind, n, per, L, np_, hassrc)
                if abs(lam) > 1e-8 * (1 + abs(b).max()):
                    continue  # incompatible by construction error: not a valid input
                lines = ['clearopt'] + [poly_line(k, q) for k, q in enumerate(polys)] + [poly_line(8 + k, q) for k, q in enumerate(src)]
                lines += [opts_line(n, per, L, strain_tensor=st, **opt), 'problem bc=%s rhs=%s' % (bcarg(bc), '8,9' if hassrc else '-1,-1'), 'setuprhs out=@b', 'setupksp',
                          'solve out=@x tag=1', 'loadrhs in=@b2', 'solve out=@x2 tag=2', 'loadrhs in=@b1', 'solve out=@x3 tag=3', 'freeproblem ksp=1', 'clearopt']
                # history: a different right-hand side in between, then the first one again
                b2 = b.copy()
                b2[:f.NV * 2] *= -.5

                # one back-substitution of a system known up to the constant pressure loses the digits that constant takes
                tu, tp = (3e-4, 1e-2) if name == 'preonly-lu' else (1e-6, 1e-5)

                def j(r, f=f, u=u, p=p, b=b, own=own, label=label, kind=kind, tu=tu, tp=tp, name=name):
                    out = []
                    nv = 2 * f.NV
                    y = r.out['b']
                    ctx.seen(label)
                    bad, w = compare(y, b, abs(b).max(), 1e-11)
                    if bad.any():
                        i = int(np.argmax(abs(y - b)))
                        out.append(('rhs', '%s: right-hand side differs in %d entries, worst %s got %.12g expected %.12g' % (label, bad.sum(), describe(f, i), y[i], b[i])))
                    su, spr = max(abs(u).max(), 1e-10), max(abs(p).max(), abs(u).max(), 1e-10)
                    for k, (nm, fac) in enumerate((('x', 1.), ('x2', -.5), ('x3', 1.))):
                        e = r.evs('solve')[k]
                        ctx.count('solves')
                        ctx.count('krylov_iterations', e['its'])
                        if e['reason'] <= 0:
                            out.append(('diverged', '%s: solve %d did not converge (reason %d after %d iterations)' % (label, k + 1, e['reason'], e['its'])))
                            continue
                        x = r.out[nm]
                        du = x[:nv] - fac * u
                        q = x[nv:] - x[nv:].mean()
                        dp = q - fac * p
                        ctx.maxi('worst_velocity_error_' + name, abs(du).max() / su)
                        ctx.maxi('worst_pressure_error_' + name, abs(dp).max() / spr)
                        if not abs(du).max() <= tu * su:
                            i = int(np.argmax(abs(du)))
                            out.append(('velocity', '%s: solve %d velocity differs from the reference solution, worst %s got %.10g expected %.10g' % (label, k + 1, describe(f, i), x[i], fac * u[i])))
                        elif not abs(dp).max() <= tp * spr:
                            out.append(('pressure', '%s: solve %d pressure differs from the reference by %.3g (scale %.3g)' % (label, k + 1, abs(dp).max(), spr)))
                    return out
                ctx.add('fem2', Case(label, lines, {'b2': b2, 'b1': b}, ['b', 'x', 'x2', 'x3'], j), np_)
                ctx.samples.append(dict(label=label))
    ctx.go(chunk=4, timeout=240)


# ------------------------------------------------------------------ C08 multigrid levels
@check('C08', 'random coarsenable grids (square or not, periodic, anisotropic) x process counts: every coarse-level operator and diagonal installed in the velocity solver is '
       'applied to random vectors and compared with an independent discretisation of that level; non-trivial = one level of one hierarchy',
       ['grids whose intervals are divisible by the coarsening factor'])
def c08(ctx):
    rng = ctx.rng
    for np_ in [1, 2, 4]:
        for _ in range(ctx.k(20, 120)):
            n = [8 * int(rng.integers(1, 5)) + 1, 8 * int(rng.integers(1, 9)) + 1]
            if rng.random() < .35:      # long strips: the short direction limits the number of levels
                a = int(rng.integers(5, 10))
                n = [a, 2 * int(rng.integers(16, 65)) + 1]
            if rng.random() < .5:
                n = n[::-1]
            if np_ > 1:
                n = [max(v, 17) if min(n) > 8 else max(v, 9) for v in n]
            per = [int(rng.random() < .25), int(rng.random() < .25)]
            L = [float(np.round(rng.uniform(.5, 2), 3)) for _ in range(2)]
            st = int(rng.integers(2))
            f = Ref(n, per, L)
            X = vectors(rng, 2 * f.NV, 1)[0]
            label = 'levels n=%s per=%s L=%s strain=%d np=%d' % (n, per, L, st, np_)
            lines = ['clearopt', 'fn k=0 t=1:0:0', opts_line(n, per, L, strain_tensor=st, PMM=1), 'problem bc=0,0,0,0,0,0,0,0', 'setupksp', 'mglevels in=@i out=@keep', 'freeproblem ksp=1', 'clearopt']

            def j(r, f=f, X=X, label=label, st=st):
                import os
                out = []
                e = r.ev('mglevels')
                nl = e['n']
                ctx.maxi('deepest_hierarchy', nl)
                for l in range(nl - 1):
                    fac = 2 ** (nl - 1 - l)
                    q = [int(v) for v in e['info'][0 if False else l][0:14]]
                    m = [q[2], q[3]]
                    exp = [(f.nv[d] // fac if f.per[d] else (f.nv[d] - 1) // fac + 1) for d in range(2)]
                    ctx.seen(label, l)
                    if m != exp:
                        out.append(('grid', '%s: level %d has grid %s, expected %s' % (label, l, m, exp)))
                        continue
                    g = Plain(m, f.per, [f.h[d] * fac for d in range(2)])
                    M = g.strain() if st else g.lap()
                    own = (g.dirichlet([[0, 0]] * 4) >= 0).ravel()
                    k = np.where(own, 0., 1.)
                    x = X[:g.N]
                    ref = k * (M @ x) + (1 - k) * x
                    fn = r.files['keep'] + '.%d' % l
                    y = np.fromfile(fn)
                    d = np.fromfile(r.files['keep'] + '.d%d' % l)
                    os.unlink(fn)
                    bad, w = compare(y, ref, np.max(abs(M) @ abs(x)))
                    ctx.count('rows_compared', len(ref))
                    if bad.any():
                        i = int(np.argmax(abs(y - ref)))
                        out.append(('value', '%s: operator of level %d (%s) differs in %d rows, worst %s got %.10g expected %.10g' % (label, l, m, bad.sum(), describe(g, i), y[i], ref[i])))
                    dl = g.lap().diagonal()
                    if not st and compare(d, dl, abs(dl).max())[0].any():
                        out.append(('diag', '%s: diagonal of level %d differs from that of its operator' % (label, l)))
                return out
            ctx.add('fem2', Case(label, lines, {'i': X}, ['keep'], j), np_)
            ctx.samples.append(dict(label=label))
    # the function that builds the level operators, on meshes of both dimensions coarsened directly
    for dim, nps, count in ((2, [1, 2, 4], ctx.k(12, 80)), (3, [1, 2, 4], ctx.k(10, 60))):
        for np_ in nps:
            for _ in range(count):
                depth = int(rng.integers(1, 5 if dim == 2 else 4))
                start = int(rng.integers(0, depth)) if rng.random() < .3 else 0
                per = [int(rng.random() < .3) for _ in range(dim)]
                # the coarsest grid has m points per direction (at least 4 on several processes)
                m = [int(rng.integers(4 if np_ > 1 else 3, (9 if dim == 2 else 6) if depth < 3 else 6 if dim == 2 else 5)) for _ in range(dim)]
                n = [(m[d] << (depth - 1)) if per[d] else ((m[d] - 1) << (depth - 1)) + 1 for d in range(dim)]
                if np_ > 1 and min(n) < 5:
                    continue
                L = [float(np.round(rng.uniform(.5, 2), 3)) for _ in range(dim)]
                op = 'strain' if rng.random() < .5 else 'lap'
                bc = [0] * (2 * dim * dim) if rng.random() < .6 else [0 if rng.random() < .5 else -1 for _ in range(2 * dim * dim)]
                f = Ref(n, per, L)
                fac = 2 ** depth
                g = Plain([(f.nv[d] // fac if per[d] else (f.nv[d] - 1) // fac + 1) for d in range(dim)], per, [f.h[d] * fac for d in range(dim)])
                X = vectors(rng, g.N, 1)[0]
                label = 'coarsening %dD %s n=%s per=%s L=%s depth=%d from=%d bc=%s np=%d' % (dim, op, n, per, L, depth, start, bc, np_)

                def j2(r, g=g, X=X, label=label, op=op, bc=bc, dim=dim):
                    out = []
                    q = [int(v) for v in r.ev('levelop')['info']]
                    if q[2:2 + dim] != g.nv:
                        return [('grid', '%s: the grid is %s, expected %s' % (label, q[2:2 + dim], g.nv))]
                    ctx.seen(label, 0)
                    M = g.strain() if op == 'strain' else g.lap()
                    own = (g.dirichlet([bc[b * dim:(b + 1) * dim] for b in range(2 * dim)]) >= 0).ravel()
                    k = np.where(own, 0., 1.)
                    ref = k * (M @ X) + (1 - k) * X
                    bad, w = compare(r.out['o'], ref, np.max(abs(M) @ abs(X)))
                    ctx.count('rows_compared', len(ref))
                    ctx.maxi('worst_level_error', w)
                    if bad.any():
                        i = int(np.argmax(abs(r.out['o'] - ref)))
                        out.append(('value', '%s: operator of the coarse grid %s differs in %d rows, worst %s got %.10g expected %.10g' % (label, g.nv, bad.sum(), describe(g, i), r.out['o'][i], ref[i])))
                    dl = g.lap().diagonal()
                    if compare(r.out['d'], dl, abs(dl).max())[0].any():
                        i = int(np.argmax(abs(r.out['d'] - dl)))
                        out.append(('diag', '%s: diagonal of the coarse grid differs from the one of the gradient form, worst %s got %.10g expected %.10g' % (label, describe(g, i), r.out['d'][i], dl[i])))
                    return out
                ctx.add('fem%d' % dim, Case(label, ['fn k=0 t=1:0:0' if dim == 2 else 'fn k=0 t=1:0:0:0', mesh_line(n, per, L),
                                                    'levelop op=%s depth=%d from=%d bc=%s in=@i out=@o diag=@d' % (op, depth, start, ','.join(map(str, bc)))], {'i': X}, ['o', 'd'], j2), np_)
    ctx.go(chunk=4, timeout=60)


# ------------------------------------------------------------------ C09 options
@check('C09', 'random subsets of run-time options, 2-D and 3-D: the values held by the constructed problem (grid, box, periodicity, viscous form, assembly, spacing) are compared with the '
       'documented meaning and defaults, and the mesh with the requested one; non-trivial = distinct option subsets',
       ['options are given through the PETSc option database'])
def c09(ctx):
    rng = ctx.rng
    N = ctx.k(240, 2000)
    for i in range(N):
        dim = 2 if i % 3 else 3
        names = 'xyz'[:dim]
        n, per, L = [17] * dim, [0] * dim, [1.] * dim
        fl = dict(strain_tensor=0, assembling=0, PMM=0)
        preset = i % 2 == 1     # the program has set its own defaults
        o, pre = [], ''
        if preset:
            n, per, L = [int(v) for v in rng.integers(4, 30, dim)], [int(v) for v in rng.integers(0, 2, dim)], [float(v) for v in np.round(rng.uniform(.1, 5, dim), 4)]
            fl = {k: int(rng.integers(2)) for k in fl}
            J = lambda v: ','.join(map(repr, v))
            pre = 'optset d=%d mx=%s lx=%s per=%s flags=%s' % (dim, J(n), J(L), J(per), J(list(fl.values())))
        for d in range(dim):
            if rng.random() < .5:
                n[d] = int(rng.integers(4, 20))
                o.append('m%s=%d' % (names[d], n[d]))
            if rng.random() < .5:
                L[d] = float(np.round(rng.uniform(.1, 5), 4))
                o.append('L%s=%r' % (names[d], L[d]))
            if rng.random() < .5:
                per[d] = int(rng.integers(2))
                o.append('%speriod=%s' % (names[d], ['false', 'true'][per[d]] if rng.random() < .5 else per[d]))
        for k in fl:
            if rng.random() < .5:
                fl[k] = int(rng.integers(2))
                o.append('%s=%d' % (k, fl[k]) if rng.random() < .5 or not fl[k] else '%s=<null>' % k)
        label = '%dD options %s%s' % (dim, ' '.join(o) or '(none)', ' after ' + pre if pre else '')
        lines = ['clearopt'] + (['opt ' + ' '.join(o)] if o else [])
        lines += ([pre] if preset else ['problem bc=0,0,0,0,0,0,0,0', 'freeproblem'] if dim == 2 else ['options3']) + ['clearopt']

        def j(r, n=n, per=per, L=L, fl=fl, label=label, dim=dim, preset=preset):
            out = []
            e = r.ev('optset' if preset else 'problem' if dim == 2 else 'options3')
            ctx.seen(label)
            got = (e['mx'], e['lx'], [int(p) for p in e['per']], e['strain'], e['assembling'], e['pmm'])
            exp = (n, L, per, fl['strain_tensor'], fl['assembling'], fl['PMM'])
            ctx.count('values_compared', 3 * dim + 3)
            if got != exp:
                out.append(('value', '%s: got %s expected %s' % (label, got, exp)))
            if dim == 2 and not preset:
                q = r.ev('mesh')['vel'][0]
                if [int(q[2]), int(q[3])] != [npts(n[d], per[d])[1] for d in range(2)]:
                    out.append(('mesh', '%s: velocity mesh %s' % (label, q[2:4])))
                if not np.allclose(e['h'], [L[d] / (2 * (n[d] - 1)) for d in range(2)], rtol=1e-13, atol=0):
                    out.append(('spacing', '%s: spacing %s' % (label, e['h'])))
            return out
        ctx.add('fem2', Case(label, lines, judge=j), 1)
        ctx.samples.append(label)
    ctx.go(chunk=20)
