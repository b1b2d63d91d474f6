"""C11, C12, C13: designs by convex optimisation."""
import traceback
import warnings

import numpy as np
from scipy.linalg import toeplitz

from ._common import (Reject, close, conj_roots, cplx, poly, raises, related,
                      require, st, subtest)
from ._filters import integral, mag2, warg, weights, wfun, wpoints

import pydsm.NTFdesign as nd
from pydsm.NTFdesign.weighting import (ntf_fir_from_q0, ntf_fir_weighting,
                                       ntf_hybrid_weighting)

MODELERS = ['cvxpy_old', 'cvxpy_old', 'cvxpy', 'picos']


def q0_ref(w, pts, P, poles=()):
    """Moments of the weighting over the denominator."""
    z = (np.zeros(0), np.asarray(poles), 1.)
    f = (lambda x: w(x) * mag2(z, x)) if len(poles) else w
    return np.array([2 * integral(lambda x: f(x) * np.cos(2 * np.pi * k * x),
                                  0, .5, pts) for k in range(P + 1)])


def response(b, a, f):
    """|B/A| with polynomials in 1/z."""
    e = np.exp(-2j * np.pi * np.asarray(f))
    return np.abs(np.polyval(b[::-1], e) / np.polyval(a[::-1], e))


def bound(Q, a, H, f, iters=8):
    """Least b'Qb subject to |B/A| <= H: lower bound, by the exchange of
    frequencies.  Returns (cost, b)."""
    import cvxpy as cp
    n = Q.shape[0] - 1
    lam, v = np.linalg.eigh(Q)
    lam = np.maximum(lam, 0)
    top = lam.max()
    R = (v * np.sqrt(lam / top)).T
    best = None
    dense = np.linspace(0, .5, 64 * n + 65)
    for _ in range(iters):
        f = np.unique(np.clip(f, 0, .5))
        E = np.exp(-2j * np.pi * np.outer(f, np.arange(n + 1)))
        s = H * np.abs(np.exp(-2j * np.pi * np.outer(
            f, np.arange(len(a)))) @ a)
        b = cp.Variable(n + 1)
        t = cp.Variable()
        cons = [b[0] == 1, cp.norm(R @ b) <= t]
        cons.append(cp.SOC(s, cp.vstack([E.real @ b, E.imag @ b])))
        p = cp.Problem(cp.Minimize(t), cons)
        for tol in (1e-9, 1e-8, 1e-7, 1e-6):
            try:
                p.solve(solver=cp.CLARABEL, tol_gap_abs=tol, tol_gap_rel=tol,
                        tol_feas=tol)
            except cp.SolverError:
                continue
            if p.status == 'optimal':
                break
        else:
            return None         # the bound of fewer frequencies is not tight
        best = (t.value * np.sqrt(top), b.value)
        r = response(b.value, a, dense)
        i = np.flatnonzero((r > H * (1 + 1e-6)) &
                           (r >= np.roll(r, 1)) & (r >= np.roll(r, -1)))
        if not len(i):
            return best
        f = np.concatenate((f, dense[i]))
    return best if r[i].max() < H * (1 + 2e-5) else None


def ill(q, poles=()):
    """Weighting vanishing in a wide band or poles nearly coincident."""
    e = np.linalg.eigvalsh(toeplitz(q))
    p = np.asarray(poles)
    d = np.abs(p[:, None] - p) + np.eye(len(p))
    return e[0] < 1e-5 * e[-1] or np.any(d < .05) or np.any(np.abs(p) > .9)


def fir_form(ntf, order, poles=None, what='NTF'):
    require(isinstance(ntf, tuple) and len(ntf) == 3, '%s is not zpk', what)
    z, p, k = ntf
    z, p = np.asarray(z), np.asarray(p)
    require(z.shape == (order,) and p.shape == (order,),
            '%s: %s zeros, %s poles for order %d', what, z.shape, p.shape,
            order)
    require(k == 1, '%s is not monic: gain %r', what, k)
    if poles is None:
        require(np.all(p == 0), '%s has poles %r', what, p)
    b = np.array([1. + 0j])
    for r in z:
        b = np.convolve(b, [1., -r])
    require(np.max(np.abs(b.imag)) <= 1e-9 * np.max(np.abs(b)),
            '%s is not real', what)
    return b.real


def peak_ok(b, a, H, tol, what='NTF'):
    f = np.linspace(0, .5, 50 * len(b) + 500)
    r = response(b, a, f)
    i = int(np.argmax(r))
    require(r[i] <= H * (1 + tol), '%s: gain is %r at f=%g, H_inf is %g',
            what, r[i], f[i], H)


PEAK_TOL = 1e-4


def slack(c):
    """Factor for the tolerances: SCS is a first order solver."""
    return 20 if c.get('modeler') == 'scs' else 1


@st.composite
def fir_cases(draw):
    return {'order': draw(st.integers(1, 10)), 'w': draw(weights()),
            'H_inf': draw(st.one_of(st.sampled_from([1.5, 1.5, 1.2, 1.3]),
                                    st.floats(1.1, 1.6), st.floats(1.1, 5),
                                    st.floats(4, 25))),
            'modeler': draw(st.sampled_from(MODELERS)),
            'norm': draw(st.sampled_from(['default', 'auto', None, 1., 3., .1]
                                         )),
            'fix': draw(st.sampled_from([None, True, False])),
            'route': draw(st.sampled_from(['w', 'q0']))}


def run(fun, *a, hard=False, **k):
    """Hard problems may be given up loudly by the solver: nothing to check
    then.  With the external CVXPY, CVXOPT gives up often."""
    import cvxpy
    import picos
    if k.get('modeler') == 'scs':
        if hard:
            raise Reject       # first order solver: too slow
        k.update(modeler='cvxpy', cvxpy_opts={'solver': 'scs'},
                 scs_opts={'eps': 1e-8, 'max_iters': 50000})
    try:
        with warnings.catch_warnings():
            # SCS often runs out of iterations, and CVXPY warns
            warnings.filterwarnings('error', 'Solution may be inaccurate')
            return fun(*a, show_progress=False, **k)
    except UserWarning:
        raise Reject
    except (cvxpy.SolverError, picos.modeling.problem.SolutionFailure,
            ArithmeticError, ValueError) as e:
        solver = '/cvxopt/' in traceback.extract_tb(
            e.__traceback__)[-1].filename
        if (hard or k.get('modeler') == 'cvxpy') and (
                solver or not isinstance(e, (ArithmeticError, ValueError))):
            raise Reject
        raise


@subtest('C11', 'optimal', fir_cases, quick=500, budget=100,
         rule='order 2 or more with H_inf making a difference')
def c11_optimal(c, ctx):
    order, H, w = c['order'], c['H_inf'], c['w']
    q = q0_ref(wfun(w), wpoints(w), order)
    if not q[0] > 1e-3:
        raise Reject
    Q = toeplitz(q)
    kw = {'modeler': c['modeler']}
    if c['fix'] is False:
        e = np.linalg.eigvalsh(Q)
        if e[0] < 1e-5 * e[-1]:
            c = dict(c, fix=None)
    if c['norm'] != 'default':
        kw['normalize'] = c['norm']
    if c['fix'] is not None:
        kw['fix_pos'] = c['fix']
    ctx.label(c['modeler'])
    if c['route'] == 'w':
        pts = wpoints(w)
        if pts:
            kw['quad_opts'] = {'points': pts}
        ntf = run(ntf_fir_weighting, order, warg(w), H, hard=ill(q), **kw)
    else:
        ntf = run(ntf_fir_from_q0, q, H, hard=ill(q), **kw)
    b = fir_form(ntf, order)
    a = np.array([1.])
    peak_ok(b, a, H, PEAK_TOL * slack(c))
    got = np.sqrt(max(b @ Q @ b, 0))
    low = bound(Q, a, H, np.linspace(0, .5, 8 * order + 9))
    if low is None:
        ctx.label('no bound')
        ctx.nontrivial(False)
        return
    scale = np.sqrt(np.linalg.eigvalsh(Q)[-1])
    ctx.nontrivial(order > 1 and response(low[1], a, np.linspace(
        0, .5, 999)).max() > H * .999)
    require(got <= low[0] * (1 + 3e-4 * slack(c)) + 1e-5 * scale,
            'weighted noise is %r, %r is possible with %r', got, low[0],
            low[1])


related('C11', 'related', fir_cases, c11_optimal,
        ['order', 'w', 'H_inf', 'modeler', 'norm', 'fix', 'route'], 40,
        near=['w', 'H_inf'], budget=60)


@st.composite
def large_cases(draw):
    c = draw(fir_cases())
    c.update(order=draw(st.integers(11, 20)), modeler='cvxpy_old',
             H_inf=draw(st.floats(1.2, 2)))
    return c


@subtest('C11', 'large', large_cases, quick=25, thorough=400, budget=60,
         rule='order above 10 with H_inf making a difference')
def c11_large(c, ctx):
    c11_optimal(c, ctx)


def with_scs(cases, order=6, **kw):
    return cases().map(lambda c: dict(c, modeler='scs', order=min(
        c['order'], order), **kw))


@subtest('C11', 'scs', lambda: with_scs(fir_cases), quick=150, budget=60,
         rule='order 2 or more with H_inf making a difference')
def c11_scs(c, ctx):
    """The other solver of the external CVXPY."""
    c11_optimal(c, ctx)


@st.composite
def same_cases(draw):
    c = draw(fir_cases())
    c['order'] = draw(st.integers(1, 6))
    c['scale'] = 10. ** draw(st.integers(-8, 8))
    c['norms'] = draw(st.lists(st.sampled_from(['auto', None, 2., .3]),
                               min_size=2, max_size=2))
    return c


@subtest('C11', 'invariance', same_cases, quick=60, budget=60,
         rule='well conditioned weighting')
def c11_same(c, ctx):
    """Modeller, normalisation and scale of the weighting are immaterial."""
    order, H, w = c['order'], c['H_inf'], c['w']
    q = q0_ref(wfun(w), wpoints(w), order)
    if not q[0] > 1e-3:
        raise Reject
    e = np.linalg.eigvalsh(toeplitz(q))
    if e[0] < 1e-2 * e[-1]:
        raise Reject
    ctx.nontrivial(True)
    ref = None
    for k in [dict(modeler=m) for m in ('cvxpy_old', 'cvxpy', 'picos')] + \
            [dict(normalize=x) for x in c['norms']] + ['scale']:
        if k == 'scale':
            ntf = run(ntf_fir_from_q0, q * c['scale'], H)
        else:
            ntf = run(ntf_fir_from_q0, q, H, **k)
        b = fir_form(ntf, order)
        if ref is None:
            ref = b
        close(b, ref, 'coefficients with %s' % k, 0, 2e-2)


# ------------------------------------------------------------------------ C12

@st.composite
def hybrid_cases(draw):
    order = draw(st.integers(1, 8))
    n = draw(st.one_of(st.integers(0, order), st.just(order)))
    c = draw(fir_cases())
    c.update(order=order, poles=draw(conj_roots(n, rmax=.85)),
             form=draw(st.sampled_from(['array', 'list', 'tuple'])),
             H_inf=draw(st.one_of(st.sampled_from([1.2, 1.5]),
                                  st.floats(1.05, 3), st.floats(3, 20))))
    return c


@subtest('C12', 'optimal', hybrid_cases, quick=500, budget=120,
         rule='some pole out of the origin, order above 1 and H_inf making a '
              'difference')
def c12_optimal(c, ctx):
    order, H, w = c['order'], c['H_inf'], c['w']
    poles = cplx(c['poles'])
    q = q0_ref(wfun(w), wpoints(w), order, poles)
    if not q[0] > 1e-3:
        raise Reject
    Q = toeplitz(q)
    kw = {'modeler': c['modeler']}
    if c['norm'] != 'default':
        kw['normalize'] = c['norm']
    if wpoints(w):
        kw['quad_opts'] = {'points': wpoints(w)}
    arg = poles if c['form'] == 'array' else list(poles) \
        if c['form'] == 'list' else tuple(poles)
    ctx.label(c['modeler'])
    ctx.label('%s poles' % ('no' if not len(poles) else 'all' if len(poles) ==
                            order else 'some'))
    if len(poles) or c['form'] != 'array':
        kw['poles'] = arg
    ntf = run(ntf_hybrid_weighting, order, warg(w), H, hard=ill(q, poles), **kw)
    b = fir_form(ntf, order, poles)
    p = np.asarray(ntf[1])
    close(np.sort_complex(p), np.sort_complex(np.concatenate(
        (poles, np.zeros(order - len(poles))))), 'poles', 1e-12, 1e-12)
    a = poly(poles)
    a = np.concatenate((a, np.zeros(order + 1 - len(a))))
    peak_ok(b, a, H, PEAK_TOL * slack(c))
    got = np.sqrt(max(b @ Q @ b, 0))
    f = np.concatenate((np.linspace(0, .5, 8 * order + 9),
                        np.abs(np.angle(poles)) / 2 / np.pi))
    low = bound(Q, a, H, f)
    if low is None:
        ctx.label('no bound')
        ctx.nontrivial(False)
        return
    scale = np.sqrt(np.linalg.eigvalsh(Q)[-1])
    ctx.nontrivial(order > 1 and np.any(poles != 0) and response(
        low[1], a, np.linspace(0, .5, 999)).max() > H * .999)
    require(got <= low[0] * (1 + 3e-4 * slack(c)) + 1e-5 * scale,
            'weighted noise is %r, %r is possible with %r', got, low[0],
            low[1])


@subtest('C12', 'scs', lambda: with_scs(hybrid_cases, 8), quick=100, budget=60,
         rule='some pole out of the origin, order above 1 and H_inf making a '
              'difference')
def c12_scs(c, ctx):
    """The other solver of the external CVXPY."""
    c12_optimal(c, ctx)


@st.composite
def too_many(draw):
    order = draw(st.integers(1, 6))
    return {'order': order, 'modeler': draw(st.sampled_from(MODELERS)),
            'poles': draw(conj_roots(order + draw(st.integers(1, 3)),
                                     rmax=.8)),
            'H_inf': draw(st.floats(1.2, 3))}


@subtest('C12', 'too_many_poles', too_many, quick=60)
def c12_many(c, ctx):
    raises(ValueError, lambda: ntf_hybrid_weighting(
        c['order'], lambda f: 1 + f, c['H_inf'], cplx(c['poles']),
        modeler=c['modeler'], show_progress=False), 'too many poles',
        'Too many poles')


@subtest('C12', 'no_poles', fir_cases, quick=60, budget=60,
         rule='order 2 or more')
def c12_fir(c, ctx):
    """Without poles it is the FIR design."""
    order, H, w = c['order'], c['H_inf'], c['w']
    q = q0_ref(wfun(w), wpoints(w), order)
    if not q[0] > 1e-3:
        raise Reject
    ctx.nontrivial(order > 1)
    kw = {'modeler': c['modeler']}
    if wpoints(w):
        kw['quad_opts'] = {'points': wpoints(w)}
    x = run(ntf_hybrid_weighting, order, warg(w), H, hard=ill(q), **kw)
    y = run(ntf_fir_weighting, order, warg(w), H, hard=ill(q), **kw)
    a, b = fir_form(x, order), fir_form(y, order)
    Q = toeplitz(q)
    scale = np.sqrt(np.linalg.eigvalsh(Q)[-1])
    close(np.sqrt(max(a @ Q @ a, 0)), np.sqrt(max(b @ Q @ b, 0)),
          'weighted noise of the two', 1e-3, 2e-5 * scale)


related('C12', 'related', fir_cases, c12_fir, ['w', 'H_inf', 'modeler'], 12,
        near=['w', 'H_inf'], budget=60)
related('C12', 'related_poles', hybrid_cases, c12_optimal,
        ['w', 'H_inf', 'modeler', 'norm'], 40, near=['w', 'H_inf', 'poles'],
        budget=60)


# ------------------------------------------------------------------------ C13

def peaks_of(f, r, above):
    """Local maxima beyond a level."""
    q = np.concatenate(([-1.], r, [-1.]))
    return f[(r > above) & (r >= q[:-2]) & (r >= q[2:])]


def minmax_bound(n, bands, H, zeros):
    """Least in-band peak, by exchange of frequencies: lower bound."""
    import cvxpy as cp
    k = np.arange(n + 1)
    bands = [(max(a, 0), min(b, .5)) for a, b in bands]
    fb = np.unique(np.concatenate([np.linspace(a, b, 2 * n + 5)
                                   for a, b in bands]))
    g = np.linspace(0, .5, 8 * n + 9)
    dense_b = [np.linspace(a, b, 40 * n + 100) for a, b in bands]
    dense_g = np.linspace(0, .5, 64 * n + 65)
    low = None
    for _ in range(8):
        b, t = cp.Variable(n + 1), cp.Variable()
        cons = [b[0] == 1]
        for f, top in ((fb, t), (g, H)):
            if np.isscalar(top) and np.isinf(top):
                continue
            E = np.exp(-2j * np.pi * np.outer(f, k))
            cons.append(cp.SOC(top * np.ones(len(f)),
                               cp.vstack([E.real @ b, E.imag @ b])))
        for f0 in zeros:
            e = np.exp(-2j * np.pi * f0 * k)
            cons.append(e.real @ b == 0)
            if f0 not in (0, .5):
                cons.append(e.imag @ b == 0)
        p = cp.Problem(cp.Minimize(t), cons)
        for tol in (1e-9, 1e-8, 1e-7, 1e-6):
            try:
                p.solve(solver=cp.CLARABEL, tol_gap_abs=tol, tol_gap_rel=tol,
                        tol_feas=tol)
            except cp.SolverError:
                continue
            if 'infeasible' in p.status:
                return np.inf
            if p.status == 'optimal':
                break
        else:
            return None
        low = float(t.value)
        one = np.array([1.])
        more = [peaks_of(f, response(b.value, one, f), low * (1 + 1e-5))
                for f in dense_b]
        fb2 = np.unique(np.concatenate([fb] + more))
        g2 = g
        if np.isfinite(H):
            g2 = np.unique(np.concatenate((g, peaks_of(
                dense_g, response(b.value, one, dense_g), H * (1 + 1e-6)))))
        if len(fb2) == len(fb) and len(g2) == len(g):
            break
        fb, g = fb2, g2
    return low


@st.composite
def minmax_cases(draw, modeler=None):
    multiband = bool(modeler)
    multi = multiband or draw(st.integers(0, 5)) == 0
    nb = draw(st.integers(2, 3)) if multiband else \
        draw(st.integers(1, 2)) if multi else 1
    f0 = [draw(st.one_of(st.sampled_from([0., 0., .25, .5]),
                         st.floats(.02, .49))) for _ in range(nb)]
    osr = [draw(st.one_of(st.sampled_from([8, 16, 32, 64]),
                          st.floats(4, 100))) for _ in range(nb)]
    if multiband and len(set(f0)) < nb:
        f0 = [0., .125, .35][:nb]
    return {'order': draw(st.integers(1, 6 if multiband else 9)), 'f0': f0,
            'osr': osr, 'array': multi,
            'one_osr': draw(st.integers(0, 3 if multiband else 1)) == 0,
            'zf': draw(st.integers(0, 2)) == 0,
            'H_inf': draw(st.one_of(st.sampled_from([1.5, 1.5, 2., 'inf']),
                                    st.floats(1.1, 4), st.floats(3, 20))),
            'modeler': modeler or draw(st.sampled_from(MODELERS))}


@subtest('C13', 'optimal', minmax_cases, quick=300, budget=150,
         rule='order 2 or more')
def c13_optimal(c, ctx):
    order, f0, osr, zf = c['order'], c['f0'], c['osr'], c['zf']
    H = np.inf if c['H_inf'] == 'inf' else c['H_inf']
    if c['array'] and c['one_osr']:
        osr = [osr[0]] * len(f0)
    bands = [(0, .5 / r) if f == 0 else (f - .5 / r, f + .5 / r)
             for f, r in zip(f0, osr)]
    if zf and len(set(f0)) < len(f0):
        raise Reject       # the same zero twice
    low = minmax_bound(order, bands, H, f0 if zf else [])
    if low is None or low == np.inf:
        raise Reject       # infeasible or unknown
    ctx.nontrivial(order > 1)
    ctx.label(c['modeler'])
    for x in (['zf %s %s' % ('BP' if any(f0) else 'LP', c['modeler'])] if zf
              else []) + (['multiband'] if len(f0) > 1 else []):
        ctx.label(x)
    if c['array']:
        args = (osr[0] if c['one_osr'] else osr), H, f0
    else:
        args = osr[0], H, f0[0]
    kw = {'zf': True} if zf else {}
    ntf = run(nd.ntf_fir_minmax, order, *args, modeler=c['modeler'],
              hard=zf or low < 2e-3 or np.isinf(H), **kw)
    b = fir_form(ntf, order)
    a = np.array([1.])
    if np.isfinite(H):
        peak_ok(b, a, H, PEAK_TOL * slack(c))
    if zf:
        for f in f0:
            r = response(b, a, [f])[0]
            require(r <= 1e-5 * max(1, H if np.isfinite(H) else 2 ** order),
                    'no zero in f=%g, the gain is %r', f, r)
    fb = np.concatenate([np.linspace(x, y, 40 * order + 200)
                         for x, y in bands])
    pk = response(b, a, fb).max()
    require(pk ** 2 <= low ** 2 * (1 + 5e-4 * slack(c)) +
            1e-6 * slack(c),
            'in-band peak is %r, %r is possible', pk, low)


related('C13', 'related', lambda: minmax_cases().filter(
    lambda c: len(c['f0']) == 1), c13_optimal,
    ['order', 'f0', 'osr', 'zf', 'H_inf', 'modeler'], 25,
    near=['osr', 'H_inf', 'f0'], budget=60)


def c13_multiband(modeler):
    """More bands, as a rule of different widths."""
    @subtest('C13', 'multiband_' + modeler, lambda: minmax_cases(modeler),
             quick=60 if modeler == 'cvxpy_old' else 120, budget=70,
             rule='order 2 or more')
    def run_it(c, ctx):
        c13_optimal(c, ctx)


for _m in sorted(set(MODELERS)):
    c13_multiband(_m)


@st.composite
def edge_cases(draw):
    """Bands near DC or the Nyquist frequency, as a rule across them."""
    c = draw(minmax_cases())
    osr = draw(st.one_of(st.sampled_from([4, 8, 16, 32]), st.floats(3, 64)))
    d = draw(st.sampled_from([.01, .1, .25, .5, .75, 1., 1.5])) / osr
    c.update(order=draw(st.integers(2, 7)), array=False, osr=[osr],
             f0=[draw(st.sampled_from([d, .5 - d]))],
             zf=draw(st.integers(0, 3)) > 0,
             H_inf=draw(st.one_of(st.sampled_from([2., 4., 8., 'inf']),
                                  st.floats(1.5, 20))))
    return c


@subtest('C13', 'edges', edge_cases, quick=160, budget=60,
         rule='order 2 or more')
def c13_edges(c, ctx):
    c13_optimal(c, ctx)


@subtest('C13', 'scs', lambda: with_scs(minmax_cases), quick=60, budget=60,
         rule='order 2 or more')
def c13_scs(c, ctx):
    """The other solver of the external CVXPY."""
    c13_optimal(c, ctx)
