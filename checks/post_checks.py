import os, re
import numpy as np, scipy.sparse as sp
from vlib.core import check
from vlib.run import Case
from vlib.fem import Ref
from checks.fem_checks import rand_grid, mesh_line, vectors


def refine_1d(m, per, r):
    """values of the hat functions of a grid of m points at the points of the r times finer grid"""
    nf = m * r if per else (m - 1) * r + 1
    W = np.zeros((nf, m))
    for i in range(nf):
        c, t = divmod(i, r)
        W[i, c % m] += 1 - t / r
        if t:
            W[i, (c + 1) % m] += t / r
    return W


def refine_matrix(npts, per, rf):
    W = [sp.csr_matrix(refine_1d(npts[k], per[k], rf[k])) for k in range(2)]
    return sp.kron(W[1], W[0], format='csr'), [w.shape[0] for w in W]


@check('C16', 'random 2-D grids x anisotropic refinement factors x random fields x process counts: every value of the refined velocity and pressure is compared with the bilinear field; non-trivial = one field on one partition',
       ['two-dimensional solutions (the interpolation is written for two dimensions)'])
def c16(ctx):
    rng = ctx.rng
    for np_ in (1, 2, 3, 4, 6):
        for _ in range(ctx.k(32, 300)):
            n, per, L = rand_grid(rng, 2, np_)
            f = Ref(n, per, L)
            rf = [int(rng.integers(1, 5)), int(rng.integers(1, 5))]
            if rng.random() < .2:
                rf[1] = rf[0]
            X = vectors(rng, f.N, 1)[0]
            label = 'n=%s per=%s L=%s refine=%s np=%d' % (n, per, L, rf, np_)

            def j(r, f=f, rf=rf, X=X, per=per, label=label):
                out = []
                e = r.ev('interp')
                Wv, mv = refine_matrix(f.nv, per, rf)
                Wp, mp = refine_matrix(f.npr, per, rf)
                Y = r.out['o']
                nv = 2 * int(np.prod(mv))
                if len(Y) != nv + int(np.prod(mp)):
                    return [('size', '%s: the refined solution has %d values, expected %d' % (label, len(Y), nv + int(np.prod(mp))))]
                U = X[:2 * f.NV].reshape(-1, 2)
                P = X[2 * f.NV:]
                for nm, y, ex, m in (('velocity', Y[:nv].reshape(-1, 2), Wv @ U, mv), ('pressure', Y[nv:, None], (Wp @ P)[:, None], mp)):
                    ctx.count('values_compared', y.size)
                    ctx.seen(label, nm)
                    bad = ~(abs(y - ex) <= 1e-11 * abs(X).max())
                    if bad.any():
                        i = int(np.argmax(bad.any(1)))
                        out.append((nm, '%s: refined %s wrong at %d of %d points, first at (%d,%d): got %s expected %s' % (
                            label, nm, bad.any(1).sum(), len(y), i % m[0], i // m[0], y[i].tolist(), ex[i].tolist())))
                if e['input_changed']:
                    out.append(('input', '%s: interpolation changed %d values of the solution' % (label, e['input_changed'])))
                return out
            ctx.add('fem2', Case(label, [mesh_line(n, per, L), 'interp in=@i refine=%d,%d out=@o' % tuple(rf)], {'i': X}, ['o'], j), np_)
            ctx.samples.append(label)
    ctx.go()


def numbers(t):
    return [float(x) for x in t.split()]


def check_xdmf(out, label, path, name, dims, h):
    """dims: dataset -> sizes found in the HDF5 file"""
    import xml.etree.ElementTree as ET
    try:
        root = ET.parse(os.path.join(path, name + '.xdmf')).getroot()
    except Exception as e:
        out.append(('xml', '%s: the XDMF description cannot be read: %r' % (label, e)))
        return
    seen = {}
    for g in root.iter('Grid'):
        at = g.find('Attribute')
        if at is None:
            continue
        ds = at.get('Name')
        seen[ds] = 1
        top, geo = g.find('Topology'), g.find('Geometry')
        items = [numbers(i.text) for i in geo.findall('DataItem')]
        d = at.find('DataItem')
        text = d.text.strip()
        if text != '%s.h5:/%s' % (name, ds):
            out.append(('ref', '%s: %s refers to %r' % (label, ds, text)))
        if ds not in dims:
            out.append(('attr', '%s: attribute %r describes no saved dataset' % (label, ds)))
            continue
        got = [int(v) for v in numbers(d.get('Dimensions'))]
        if got != dims[ds]:
            out.append(('dims', '%s: XDMF says %s is %s, the file holds %s' % (label, ds, got, dims[ds])))
        n = [int(v) for v in numbers(top.get('NumberOfElements') or top.get('Dimensions'))]
        if n != dims[ds][:2]:
            out.append(('grid', '%s: XDMF grid of %s has %s points, the values are on %s' % (label, ds, n, dims[ds][:2])))
        hh = [v * (2 if ds == 'pressure' else 1) for v in h]
        if items[0] != [0., 0.]:
            out.append(('origin', '%s: origin of %s is %s' % (label, ds, items[0])))
        # the convention of ORIGIN_DXDY is not the same for all readers: either order is accepted; six digits are printed
        if not any(all(abs(a / b - 1) < 2e-5 for a, b in zip(items[1], q)) for q in (hh, hh[::-1])):
            out.append(('spacing', '%s: spacing of %s is %s, expected %s' % (label, ds, items[1], hh)))
        if d.get('Format') != 'HDF' or d.get('Precision') != '8':
            out.append(('format', '%s: format %s precision %s' % (label, d.get('Format'), d.get('Precision'))))
    for ds in ('velocity', 'pressure'):
        if ds not in seen:
            out.append(('missing', '%s: %s is not described' % (label, ds)))


@check('C17', 'random 2-D grids x random fields x process counts, including files saved again over older ones and refined solutions: the values and sizes in the HDF5 file are read back with the plain HDF5 library and compared '
       'with the vector, and the XDMF description with the file and the mesh; non-trivial = one saved solution',
       ['two-dimensional solutions (the description is written for two dimensions)'])
def c17(ctx):
    rng = ctx.rng
    for np_ in (1, 2, 3, 4, 6):
        for q in range(ctx.k(36, 300)):
            n, per, L = rand_grid(rng, 2, np_)
            f = Ref(n, per, L)
            reps = 1 + int(rng.random() < .3)
            X = vectors(rng, f.N, reps)
            path = ctx.scratch.path('.dir')
            os.makedirs(path)
            name = 'sol%d' % rng.integers(1000)
            refine = [int(rng.integers(1, 4)), int(rng.integers(1, 4))] if rng.random() < .3 else None
            label = 'n=%s per=%s L=%s np=%d saves=%d refine=%s' % (n, per, L, np_, reps, refine)
            lines = [mesh_line(n, per, L)]
            arrays, outs = {}, []
            for k in range(reps):
                arrays['i%d' % k] = X[k]
                outs += ['v%d' % k, 'p%d' % k]
                lines += ['save in=@i%d path=%s name=%s%s' % (k, path, name, ' refine=%d,%d' % tuple(refine) if refine else ''),
                          'h5read path=%s/%s.h5 name=velocity out=@v%d' % (path, name, k), 'h5read path=%s/%s.h5 name=pressure out=@p%d' % (path, name, k)]

            def j(r, f=f, per=per, X=X, label=label, path=path, name=name, reps=reps, refine=refine):
                out = []
                mv, mp = f.nv, f.npr
                h = np.array(f.h)
                W = (sp.identity(f.NV), sp.identity(f.NP))
                if refine:
                    (wv, mv), (wp, mp) = refine_matrix(f.nv, per, refine), refine_matrix(f.npr, per, refine)
                    W = (wv, wp)
                    h = h / np.array(refine)
                dims = {}
                for k in range(reps):
                    for q, (ds, o, ex, m) in enumerate((('velocity', 'v%d' % k, (W[0] @ X[k][:2 * f.NV].reshape(-1, 2)).ravel(), [mv[1], mv[0], 2]), ('pressure', 'p%d' % k, W[1] @ X[k][2 * f.NV:], [mp[1], mp[0]]))):
                        e = r.evs('h5read')[2 * k + q]
                        ctx.seen(label, k, ds)
                        dims[ds] = [int(v) for v in e['dims']]
                        if not e['ok'] or dims[ds] != m:
                            out.append(('dataset', '%s: dataset %s has sizes %s, expected %s' % (label, ds, dims[ds], m)))
                            continue
                        y = r.out[o]
                        ctx.count('values_compared', len(y))
                        tol = 1e-11 * abs(X[k]).max() if refine else 0
                        bad = ~(abs(y - ex) <= tol)
                        if bad.any():
                            i = int(np.argmax(bad))
                            out.append(('value', '%s: %d of %d saved %s values differ, first %d: got %r expected %r' % (label, bad.sum(), len(y), ds, i, y[i], ex[i])))
                    if r.evs('save')[k]['input_changed']:
                        out.append(('input', '%s: saving changed the solution' % label))
                check_xdmf(out, label, path, name, dims, h)
                ctx.count('descriptions_parsed')
                return out
            ctx.add('fem2', Case(label, lines, arrays, outs, j), np_)
            ctx.samples.append(label)
    ctx.go()
