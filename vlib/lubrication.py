"""Closed-form lubrication field between two spheres (or discs) in near contact, obtained here from the Reynolds equation
(parallel flow in the gap, zero flux through the first wall, exact mass conservation), independently of the library's formulas."""
import math
import sympy as sp

_cache = {}


def chi_expr(s, eps):
    """cut-off as a function of s = (distance to the axis)^2, 1 on the axis and 0 from s = 2 eps on"""
    X = (s - eps) / eps
    al = sp.Rational(315, 128) * (X ** 9 / 9 - sp.Rational(4, 7) * X ** 7 + sp.Rational(6, 5) * X ** 5 - sp.Rational(4, 3) * X ** 3 + X)
    return (1 - al) / 2


def functions(d):
    """callables (r, z, H, M, a, U, eps) -> tangential velocity, normal velocity, their r- and z-derivatives, pressure.
    The walls are z = -H r^2/2 and z = a + M r^2/2; the second one moves at U along z relative to the first."""
    if d in _cache:
        return _cache[d]
    r, z, H, M, a, U, e = A = sp.symbols('r z H M a U e', real=True)
    h = a + (H + M) * r ** 2 / 2
    z1, z2 = -H * r ** 2 / 2, a + M * r ** 2 / 2
    s = sp.Symbol('s')
    x = chi_expr(r ** 2, e)
    if d == 2:
        p0 = -6 * U / ((H + M) * h ** 2)       # (h^3 p'/12)' = U
        ut = x * sp.diff(p0, r) / 2 * (z - z1) * (z - z2)
        p = x * p0
    else:
        p0 = -3 * U / ((H + M) * h ** 2)       # (r h^3 p'/12)'/r = U
        p = x * p0
        ut = sp.diff(p, r) / 2 * (z - z1) * (z - z2)
    # integral over z of (z-z1)(z-z2) from the first wall: w^3/3 - h w^2/2 with w = z - z1
    w = z - z1
    amp = x * sp.diff(p0, r) / 2 if d == 2 else sp.diff(p, r) / 2
    psi = amp * (w ** 3 / 3 - h * w ** 2 / 2)
    un = -sp.diff(psi, r) if d == 2 else -sp.diff(r * psi, r) / r
    out = [ut, un, sp.diff(ut, r), sp.diff(ut, z), sp.diff(un, r), sp.diff(un, z), p]
    _cache[d] = sp.lambdify(A, out, 'numpy', cse=True)
    return _cache[d]


def chi(r, eps):
    """cut-off and its derivative with respect to r (0 outside)"""
    if 'chi' not in _cache:
        r_, e_ = sp.symbols('r e', real=True)
        x = chi_expr(r_ ** 2, e_)
        _cache['chi'] = sp.lambdify((r_, e_), [x, sp.diff(x, r_)], 'numpy')
    return _cache['chi'](r, eps)


def tangential():
    """the same for discs sliding past each other along r at -U/2 and U/2 (2-D): callables (r, z, H, M, a, U, eps) ->
    tangential and normal velocity, their r- and z-derivatives, pressure"""
    if 'tang' not in _cache:
        r, z, H, M, a, U, e = sp.symbols('r z H M a U e', real=True)
        k = H + M
        h = a + k * r ** 2 / 2
        z1, z2 = -H * r ** 2 / 2, a + M * r ** 2 / 2
        q = -2 * U * (H - M) * r / (k * h ** 2)      # (h^3 p'/12)' = dh/dt = U r (H - M)/2
        x = chi_expr(r ** 2, e)
        # the truncated pressure is x q; its derivatives and those of x enter as unknown functions of r
        P, X = sp.Function('P')(r), sp.Function('X')(r)
        ut = sp.diff(P, r) / 2 * (z - z1) * (z - z2) + X * U * ((z - z1) / h - sp.Rational(1, 2))
        # du/dr with z fixed is a polynomial in z: integrate it from the first wall, where the normal velocity vanishes
        D = sp.diff(ut, r)
        c = [sp.diff(D, z, m).subs(z, 0) / sp.factorial(m) for m in range(3)]
        F = lambda y: sum(c[m] * y ** (m + 1) / (m + 1) for m in range(3))
        un = -(F(z) - F(z1))
        s = {}
        for f, n in ((P, 'p'), (X, 'x')):
            for o in (4, 3, 2, 1, 0):
                s[sp.Derivative(f, (r, o)) if o else f] = sp.Symbol('%s%d' % (n, o))
        out = [ut, un, D, sp.diff(ut, z), sp.diff(un, r), sp.diff(un, z)]
        low = []
        for f in out:
            f = f.doit()
            for key, v in s.items():
                f = f.subs(key, v)
            low.append(f)
        fields = sp.lambdify([r, z, H, M, a, U] + ['%s%d' % (n, o) for n in 'px' for o in range(5)], low, 'numpy', cse=True)
        dq = sp.lambdify([r, H, M, a, U], [sp.diff(q, r, o) for o in range(5)], 'numpy', cse=True)
        dx = sp.lambdify([r, e], [sp.diff(x, r, o) for o in range(5)], 'numpy', cse=True)

        def f(r, z, H, M, a, U, e):
            Q, X = dq(r, H, M, a, U), dx(r, e)
            Q, X = [v + 0 * r for v in Q], [v + 0 * r for v in X]
            p = [sum(math.comb(o, i) * Q[i] * X[o - i] for i in range(o + 1)) for o in range(5)]
            return fields(r, z, H, M, a, U, *p, *X) + [p[0]]
        _cache['tang'] = f
    return _cache['tang']
