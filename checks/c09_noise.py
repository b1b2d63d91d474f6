"""C09, C10: quantisation noise gain, weightings and their quadratic form."""
import numpy as np

from ._common import close, raises, related, require, st, subtest
from ._filters import (FORMS, as_form, filters, integral, ir_of, mag2,
                       simple_weights, warg, weights, wfun, wpoints, zpk_of)

import pydsm.NTFdesign as nd
from pydsm.NTFdesign import filter_based as fb
from pydsm.NTFdesign.legacy import (q0_from_filter_ir,
                                    quantization_noise_gain_by_conv)
from pydsm.NTFdesign.weighting import (mult_weightings, q0_weighting,
                                       quantization_weighted_noise_gain)


def options(points, other=None):
    q = dict(other or {})
    if points:
        q['points'] = points
    return {'quad_opts': q} if q else {}


# ------------------------------------------------------------------------ C09

@st.composite
def gain_cases(draw):
    a = draw(st.one_of(st.just(0.), st.floats(0, .45)))
    b = draw(st.one_of(st.just(.5), st.floats(min(a + .005, .5), .5)))
    return {'ntf': draw(filters(nmax=6)), 'form': draw(st.sampled_from(FORMS)),
            'w': draw(weights()) if draw(st.integers(0, 5)) else None,
            'bounds': [a, b],
            'avg': draw(st.booleans()), 'cut': draw(st.floats(.1, .9)),
            'scale': draw(st.floats(.1, 10)),
            'via': draw(st.sampled_from(['NTFdesign', 'merit', 'weighting'])),
            'default_bounds': draw(st.booleans())}


@subtest('C09', 'integral', gain_cases, quick=1500,
         rule='a band not degenerate and a weighting not constant')
def c09_integral(c, ctx):
    ntf, w = zpk_of(c['ntf']), c['w']
    a, b = c['bounds']
    if c['default_bounds']:
        a, b = 0., .5
    fun = nd.quantization_noise_gain
    if c['via'] == 'weighting':
        fun = quantization_weighted_noise_gain
    elif c['via'] == 'merit':
        fun = nd.merit_factors.quantization_noise_gain
    arg = as_form(c['ntf'], c['form'])
    ctx.nontrivial(w is not None and b > a)
    ctx.label('weight %s' % (w and w['kind']))
    pts = wpoints(w) if w else []
    ref = wfun(w) if w else (lambda f: np.ones_like(f))
    kw = options(pts)

    def gain(arg, lo, hi, avg=False):
        k = dict(kw)
        if avg:
            k['avg'] = True
        if (lo, hi) != (0., .5) or not c['default_bounds']:
            k['bounds'] = (lo, hi)
        if w is None:
            return fun(arg, **k)
        return fun(arg, warg(w), **k)

    one = integral(lambda f: mag2(ntf, f) * ref(f), a, b, pts)
    full = integral(lambda f: mag2(ntf, f) * ref(f), 0, .5, pts)
    tol = dict(rtol=1e-6, atol=1e-9 * max(full, 1e-3))
    g = gain(arg, a, b, c['avg'])
    require(np.ndim(g) == 0 and np.isreal(g), 'gain is %r', g)
    close(g, one / (b - a) if c['avg'] else 2 * one, 'noise gain', **tol)
    # metamorphic relations
    m = a + (b - a) * c['cut']
    close(gain(arg, a, m) + gain(arg, m, b), 2 * one, 'sum over two bands',
          **tol)
    s = dict(c['ntf'], k=c['ntf']['k'] * c['scale'])
    close(gain(as_form(s, c['form']), a, b) / c['scale'] ** 2, 2 * one,
          'gain of the scaled NTF', **tol)


related('C09', 'related', gain_cases, c09_integral,
        ['ntf', 'form', 'w', 'bounds', 'avg', 'via', 'default_bounds'], 200,
        near=['ntf', 'w', 'bounds'], budget=60)


@st.composite
def band_cases(draw):
    lp = draw(st.booleans())
    osr = draw(st.one_of(st.sampled_from([16, 32, 64, 128]),
                         st.floats(4, 1000)))
    n = draw(st.integers(1, 8 if lp else 4))
    return {'f0': 0. if lp else draw(st.floats(.1, .4)), 'osr': osr,
            'z': draw(st.lists(st.floats(0 if lp else -1, 1), min_size=n,
                               max_size=n)),
            'p': draw(st.lists(st.floats(.1, .8), min_size=n, max_size=n)),
            'avg': draw(st.booleans()), 'form': draw(st.sampled_from(
                ['zpk', 'list'])),
            'weighted': draw(st.booleans())}


@subtest('C09', 'in_band', band_cases, quick=800,
         rule='in-band gain below 1e-4')
def c09_band(c, ctx):
    """The noise in the band of a modulator, as small as it may be."""
    lp = c['f0'] == 0
    half = .5 / c['osr'] if lp else .25 / c['osr']
    a, b = (0., half) if lp else (c['f0'] - half, c['f0'] + half)
    w0 = 2 * np.pi * c['f0']
    ang = [w0 + 2 * np.pi * half * x for x in c['z']]
    if lp:
        # zeros in couples, but for the last one when they are odd
        m = len(ang) // 2
        z = [np.exp(1j * x) for x in ang[:m]]
        p = [r * np.exp(.3j) for r in c['p'][:m]]
        z, p = z + [x.conjugate() for x in z], p + [x.conjugate() for x in p]
        if len(ang) % 2:
            z, p = z + [1.], p + [c['p'][-1]]
    else:
        z = [np.exp(s * 1j * x) for x in ang for s in (1, -1)]
        p = [r * np.exp(s * 1j * w0) for r in c['p'] for s in (1, -1)]
    ntf = (np.array(z), np.array(p), 1.) if c['form'] == 'zpk' else \
        (list(z), list(p), 1)
    x, wt = np.polynomial.legendre.leggauss(60)
    f = (a + b) / 2 + (b - a) / 2 * x
    e = np.exp(2j * np.pi * f)
    g = np.ones(len(f))
    for s in z:
        g = g * np.abs(e - s) ** 2
    for s in p:
        g = g / np.abs(e - s) ** 2
    one = float(np.sum(wt * g * (1 + f if c['weighted'] else 1))
                * (b - a) / 2)
    ctx.nontrivial(2 * one < 1e-4)
    args = (lambda f: 1 + f,) if c['weighted'] else ()
    kw = {'avg': True} if c['avg'] else {}
    got = nd.quantization_noise_gain(ntf, *args, bounds=(a, b), **kw)
    k = 1 / (b - a) if c['avg'] else 2
    close(got, one * k, 'in-band noise gain', 1e-6, 3e-14 * k)


@st.composite
def time_cases(draw):
    return {'ntf': draw(filters(nmax=5, rmax=.8)),
            'form': draw(st.sampled_from(FORMS)),
            'h': draw(filters(nmax=3, rmax=.8)),
            'hform': draw(st.sampled_from(['zpk', 'ba', 'imp', 'mag'])),
            'ir': draw(st.lists(st.floats(-3, 3), min_size=1, max_size=12)),
            'db': draw(st.sampled_from([80, 100, 120]))}


@subtest('C09', 'time_domain', time_cases, quick=800,
         rule='the filter is not an impulse')
def c09_time(c, ctx):
    """By the energy of the filtered impulse response."""
    n = 600
    h = ir_of(c['ntf'], n)
    if c['hform'] == 'imp':
        r = np.array(c['ir'])
        harg, spec = r, ((list(c['ir']), [1.]))
        ctx.nontrivial(len(r) > 1)
    else:
        r = ir_of(c['h'], n)
        spec = as_form(c['h'], 'ba' if c['hform'] == 'ba' else 'zpk')
        harg = spec
    e = float(np.sum(np.convolve(h, r) ** 2))
    ntf = as_form(c['ntf'], c['form'])
    # how much an attenuated tail may matter
    tol = dict(rtol=1e-6, atol=1e-9 * max(1, e))
    close(nd.quantization_noise_gain(ntf, tuple(spec)), e,
          'gain by the integral', **tol)
    if c['hform'] != 'mag':
        slack = 10 ** (-c['db'] / 20.)
        # the length guess only considers the slowest pole
        worst = slack * 1e3 * max(
            np.sum(np.abs(h)), 1) * max(np.sum(np.abs(r)), 1)
        hform = c['hform']
        if hform == 'zpk':
            g = quantization_noise_gain_by_conv(ntf, harg, db=c['db'])
        else:
            g = quantization_noise_gain_by_conv(ntf, harg, hform, c['db'])
        sep = separated(c['ntf']) and (hform == 'imp' or separated(c['h']))
        if sep:
            ctx.label('separated poles')
            close(g, e, 'gain by convolution', 1e-9, worst)
        g = fb.quantization_noise_gain(ntf, harg, hform)
    else:
        z = zpk_of(c['h'])
        g = fb.quantization_noise_gain(
            ntf, lambda f: np.sqrt(mag2(z, f)), 'mag')
    close(g, e, 'gain by the filter based entry', **tol)


def separated(d):
    """No poles so close that the tail is made longer."""
    p = zpk_of(d)[1]
    return all(abs(x - y) > .15 for i, x in enumerate(p) for y in p[:i])


# ------------------------------------------------------------------------ C10

@st.composite
def q0_cases(draw):
    return {'P': draw(st.integers(0, 40)), 'w': draw(weights()),
            'ir': draw(st.lists(st.floats(-2, 2), min_size=41, max_size=41)),
            'epsrel': draw(st.sampled_from([None, 1e-7]))}


@subtest('C10', 'definition', q0_cases, quick=250, budget=100,
         rule='order at least 1 and a weighting not constant')
def c10_def(c, ctx):
    P, w = c['P'], c['w']
    ref, pts = wfun(w), wpoints(w)
    ctx.nontrivial(P >= 1)
    ctx.label(w['kind'])
    other = {'epsrel': c['epsrel']} if c['epsrel'] else None
    q = q0_weighting(P, warg(w), **options(pts, other))
    require(isinstance(q, np.ndarray) and q.shape == (P + 1,) and
            np.isrealobj(q), 'q0 is %r', q)
    want = np.array([2 * integral(lambda f: ref(f) * np.cos(2 * np.pi * k * f),
                                  0, .5, pts) for k in range(P + 1)])
    tol = 1e-7 if not c['epsrel'] else 1e-5
    close(q, want, 'q0', 0, tol * max(want[0], 1e-3))
    # the cost of a FIR NTF is the quadratic form
    from scipy.linalg import toeplitz
    h = np.array(c['ir'][:P + 1])
    cost = h @ toeplitz(q) @ h
    k = np.arange(P + 1)

    def density(f):
        return ref(f) * np.abs(np.exp(-2j * np.pi * np.outer(f, k)) @ h) ** 2
    full = 2 * integral(density, 0, .5, pts)
    close(cost, full, 'quadratic form', 1e-5,
          10 * tol * want[0] * np.sum(np.abs(h)) ** 2 + 1e-200)


related('C10', 'related', q0_cases, c10_def, ['P', 'w', 'epsrel'], 50,
        near=['w'], budget=60)


@st.composite
def q0_filters(draw):
    return {'P': draw(st.integers(0, 30)), 'h': draw(filters(rmax=.8)),
            'form': draw(st.sampled_from(FORMS))}


@subtest('C10', 'filter_forms', q0_filters, quick=120, budget=100,
         rule='order at least 1')
def c10_forms(c, ctx):
    """Filter, impulse response, magnitude: all the same thing."""
    P, h = c['P'], c['h']
    ctx.nontrivial(P >= 1)
    z = zpk_of(h)
    ir = ir_of(h, 700)
    want = np.array([np.dot(ir[k:], ir[:len(ir) - k]) for k in range(P + 1)])
    tol = dict(rtol=0, atol=1e-7 * max(want[0], 1e-3))
    close(q0_weighting(P, as_form(h, c['form'])), want, 'q0 of the filter',
          **tol)
    close(q0_weighting(P, lambda f: mag2(z, f)), want,
          'q0 of the squared magnitude', **tol)
    close(q0_from_filter_ir(P, ir), want, 'q0 of the impulse response', **tol)
    close(q0_from_filter_ir(P, ir.tolist()), want, 'q0 of the list', **tol)
    form = 'zpk' if c['form'] == 'zpk_list' else c['form']
    close(fb.q0_from_filter(P, as_form(h, c['form']), form), want,
          'filter based q0, ' + form, **tol)
    close(fb.q0_from_filter(P, ir, 'imp'), want, 'filter based q0, imp',
          **tol)
    close(fb.q0_from_filter(P, lambda f: np.sqrt(mag2(z, f)), 'mag'), want,
          'filter based q0, mag', **tol)
    raises(ValueError, lambda: fb.q0_from_filter(P, ir, 'fir'),
           'unknown filter type', 'Incorrect filter type')


@st.composite
def short_ir(draw):
    return {'P': draw(st.integers(0, 30)),
            'ir': draw(st.lists(st.floats(-3, 3), min_size=1, max_size=25))}


@subtest('C10', 'short_impulse_response', short_ir, quick=200,
         rule='two samples or more')
def c10_short(c, ctx):
    ir, P = np.array(c['ir']), c['P']
    n = len(ir)
    ctx.nontrivial(n > 1)
    want = [sum(ir[i] * ir[i + k] for i in range(n - k)) if k < n else 0.
            for k in range(P + 1)]
    if P <= n:      # up to the user, see raw_acorr
        close(q0_from_filter_ir(P, ir), want, 'q0', 1e-9, 1e-9)
    padded = np.concatenate((ir, np.zeros(max(0, P - n))))
    close(q0_from_filter_ir(P, padded), want, 'padded q0', 1e-9, 1e-9)
    close(q0_weighting(P, (ir, [1.])), want, 'q0 of the FIR filter', 0,
          1e-7 * max(want[0], 1e-3))


@st.composite
def mults(draw):
    n = draw(st.integers(1, 4) | st.integers(5, 20))
    return {'w': [draw(simple_weights()) for _ in range(n)],
            'signed': draw(st.sampled_from([0., 0., .2])),
            'again': draw(st.lists(st.integers(0, n - 1), max_size=3)),
            'f': draw(st.lists(st.floats(0, .5), min_size=1, max_size=9))}


@subtest('C10', 'mult_weightings', mults, quick=400,
         rule='two or more factors')
def c10_mult(c, ctx):
    ctx.nontrivial(len(c['w']) > 1)
    args = [warg(w) for w in c['w']]
    f = np.array(c['f'])
    want = np.ones(len(f))
    for i in c['again']:
        # the very same object
        args.append(args[i])
        want = want * wfun(c['w'][i])(f)
    if c['signed']:
        # functions in general, also null or negative
        args.append(lambda f: f - c['signed'])
        want = want * (f - c['signed'])
    fun = mult_weightings(*args)
    for w in c['w']:
        want = want * wfun(w)(f)
    for x, y in zip(f, want):
        close(fun(x), y, 'product in %r' % x, 1e-9, 1e-12)
    if len(f) > 1:
        close(fun(f), want, 'product over an array', 1e-9, 1e-12)
    # products of products, in another order
    other = mult_weightings(mult_weightings(*args[::-1]), lambda f: 2. + 0 * f)
    for x, y in zip(f, want):
        close(other(x), 2 * y, 'nested product', 1e-9, 1e-12)
