"""C31: what is documented to be refused is refused."""
import numpy as np

from ._common import Caught, raises, require, snapshot, st, subtest

from pydsm import delsig, iso226
from pydsm.delsig import clans, simulateDSM, synthesizeChebyshevNTF, \
    synthesizeNTF
from pydsm.NTFdesign import filter_based as fb
from pydsm.NTFdesign import legacy
from pydsm.NTFdesign.minmax import ntf_fir_minmax
from pydsm.NTFdesign.psychoacoustic import ntf_fir_audio_weighting
from pydsm.NTFdesign.weighting import (ntf_fir_from_q0, ntf_fir_weighting,
                                       ntf_hybrid_weighting)

BACKENDS = ['scipy', 'scipy_blas', 'cblas', 'auto']

SPEC = 'Incorrect modulator specification'
NLEV = 'nlev must be convertible into a 1D int array'
UERR = 'u must be convertible into a 2D float array'
X0ERR = 'Incorrect initial condition specification'

# name: (message, function changing (u, spec, nlev, x0), requirements)


def sim_faults():
    F = {}

    def fault(name, msg, ok=lambda c: True):
        def deco(fn):
            F[name] = (msg, fn, ok)
            return fn
        return deco
    isntf = (lambda c: c['form'] == 'ntf')
    isabcd = (lambda c: c['form'] == 'abcd')

    @fault('u scalar', UERR)
    def _(c, u, s, q, x):
        return .5, s, q, x

    @fault('u 3D', UERR)
    def _(c, u, s, q, x):
        return u[np.newaxis], s, q, x

    @fault('u ragged', UERR)
    def _(c, u, s, q, x):
        return [[.1, .2], [.3]], s, q, x

    @fault('u complex', UERR)
    def _(c, u, s, q, x):
        return (u + 1j).tolist(), s, q, x

    @fault('u text', UERR)
    def _(c, u, s, q, x):
        return 'input', s, q, x

    @fault('nlev 2D', NLEV)
    def _(c, u, s, q, x):
        return u, s, [q], x

    @fault('nlev text', NLEV)
    def _(c, u, s, q, x):
        return u, s, 'two', x

    @fault('nlev None', NLEV)
    def _(c, u, s, q, x):
        return u, s, None, x

    @fault('x0 longer', X0ERR)
    def _(c, u, s, q, x):
        return u, s, q, np.append(x, .5)

    @fault('x0 longer matrix', X0ERR)
    def _(c, u, s, q, x):
        return u, s, q, np.append(x, .5).reshape(-1, 1)

    @fault('x0 shorter', X0ERR, lambda c: c['order'] > 1)
    def _(c, u, s, q, x):
        return u, s, q, x[1:]

    @fault('x0 scalar', X0ERR)
    def _(c, u, s, q, x):
        return u, s, q, .25

    @fault('x0 3D', X0ERR)
    def _(c, u, s, q, x):
        return u, s, q, x.reshape(-1, 1, 1)

    @fault('x0 text', X0ERR)
    def _(c, u, s, q, x):
        return u, s, q, 'zero'

    @fault('x0 complex', X0ERR)
    def _(c, u, s, q, x):
        return u, s, q, (x + 1j).tolist()

    @fault('ABCD wider', SPEC, isabcd)
    def _(c, u, s, q, x):
        return u, np.hstack((s, s[:, :1])), q, x

    @fault('ABCD narrower', SPEC, isabcd)
    def _(c, u, s, q, x):
        return u, s[:, 1:], q, x

    @fault('ABCD taller', SPEC, isabcd)
    def _(c, u, s, q, x):
        return u, np.vstack((s, s[:1])), q, x

    @fault('ABCD 1D', SPEC, isabcd)
    def _(c, u, s, q, x):
        return u, s.ravel(), q, x

    @fault('ABCD 3D', SPEC, isabcd)
    def _(c, u, s, q, x):
        return u, s[np.newaxis], q, x

    @fault('ABCD complex', SPEC, isabcd)
    def _(c, u, s, q, x):
        return u, (s + 1j).tolist(), q, x

    @fault('ABCD text', SPEC, isabcd)
    def _(c, u, s, q, x):
        return u, 'ABCD', q, x

    @fault('ABCD None', SPEC)
    def _(c, u, s, q, x):
        return u, None, q, x

    @fault('more inputs than in ABCD', SPEC, isabcd)
    def _(c, u, s, q, x):
        return np.vstack((u, u[:1])), s, q, x

    @fault('less inputs than in ABCD', SPEC,
           lambda c: c['form'] == 'abcd' and c['nu'] > 1)
    def _(c, u, s, q, x):
        return u[1:], s, q, x

    @fault('less rows in ABCD than quantizers', SPEC, isabcd)
    def _(c, u, s, q, x):
        n = c['order'] + c['nq']
        return u, s, [2] * (n + 1), 0

    @fault('many inputs to an NTF', SPEC, isntf)
    def _(c, u, s, q, x):
        return np.vstack((u, u)), s, q, x

    @fault('many quantizers to an NTF', SPEC, isntf)
    def _(c, u, s, q, x):
        return u, s, [2, 3], x

    @fault('NTF with a pole less', SPEC, isntf)
    def _(c, u, s, q, x):
        return u, (s[0], s[1][1:], s[2]), q, x

    @fault('NTF with a zero less', SPEC, isntf)
    def _(c, u, s, q, x):
        return u, (s[0][1:], s[1], s[2]), q, x

    @fault('NTF with 2D roots', SPEC, isntf)
    def _(c, u, s, q, x):
        return u, (s[0].reshape(-1, 1), s[1].reshape(-1, 1), s[2]), q, x

    @fault('NTF with a 2D pole array', SPEC, isntf)
    def _(c, u, s, q, x):
        return u, (s[0], s[1].reshape(1, -1), s[2]), q, x

    @fault('NTF with a text in', SPEC, isntf)
    def _(c, u, s, q, x):
        return u, (s[0], 'poles', s[2]), q, x

    @fault('NTF with a text gain', SPEC, isntf)
    def _(c, u, s, q, x):
        return u, (s[0], s[1], 'one'), q, x

    # with order 2 it is the same as a 2x3 ABCD matrix
    @fault('NTF in ba form', SPEC,
           lambda c: c['form'] == 'ntf' and c['order'] != 2)
    def _(c, u, s, q, x):
        return u, (np.poly(s[0]).real, np.poly(s[1]).real), q, x
    return F


FAULTS = sim_faults()


@st.composite
def sim_cases(draw):
    form = draw(st.sampled_from(['abcd', 'ntf']))
    order = draw(st.integers(1, 4))
    nu = draw(st.integers(1, 3)) if form == 'abcd' else 1
    nq = draw(st.integers(1, 3)) if form == 'abcd' else 1
    c = {'form': form, 'order': order, 'nu': nu, 'nq': nq,
         'n': draw(st.integers(1, 6)), 'seed': draw(st.integers(0, 99)),
         'backend': draw(st.sampled_from(BACKENDS)),
         'nlev': draw(st.lists(st.integers(2, 6), min_size=nq, max_size=nq)),
         'x0': draw(st.booleans()),
         'flags': [draw(st.booleans()) for _ in range(3)]}
    c['fault'] = draw(st.sampled_from(sorted(
        k for k, v in FAULTS.items() if v[2](c))))
    return c


@subtest('C31', 'simulateDSM', sim_cases, quick=2500, thorough=30000,
         rule='all cases count')
def c31_sim(c, ctx):
    rng = np.random.RandomState(c['seed'])
    o, nu, nq = c['order'], c['nu'], c['nq']
    u = rng.uniform(-.5, .5, (nu, c['n']))
    if c['form'] == 'abcd':
        s = rng.randint(-2, 3, (o + nq, o + nu + nq)) * .25
        if nq > 0:
            s[o:, o + nu:] = 0
    else:
        s = (np.ones(o), np.linspace(.2, .6, o), 1.)
    x = rng.uniform(-.1, .1, o)
    q = list(c['nlev'])
    msg, fn, _ = FAULTS[c['fault']]
    ctx.label(c['fault'])
    # The valid one is accepted
    f = c['flags']
    with Caught():
        v = simulateDSM(u, s, q, x if c['x0'] else 0, f[0], f[1], f[2],
                        backend=c['backend'])[0]
        require(np.size(v) == nq * c['n'], 'a valid call returns %r', v)
        a = fn(c, u, s, q, x)
        snap = snapshot(list(a))
        raises(ValueError, lambda: simulateDSM(
            *a, store_xn=f[0], store_xmax=f[1], store_y=f[2],
            backend=c['backend']), '%s (%s)' % (c['fault'], c['backend']),
            msg)
        require(snapshot(list(a)) == snap, 'arguments changed')
        raises(RuntimeError, lambda: simulateDSM(u, s, q, backend=str(
            c['seed'])), 'backend', 'Unsupported simulator backend')


# ------------------------------------------------------------------- designs

@st.composite
def ntf_cases(draw):
    k = draw(st.sampled_from(['f0', 'odd', 'odd cheb', 'opt', 'opt clans',
                              'odd low', 'zeros', 'zeros clans', '2D opt']))
    return {'kind': k, 'n': draw(st.integers(1, 8)),
            'osr': draw(st.one_of(st.sampled_from([16, 32, 64]),
                                  st.floats(4, 128))),
            'H_inf': draw(st.sampled_from([1.5, 1.3, 2.5])),
            'x': draw(st.floats(0, 1)),
            'bp': draw(st.booleans()),
            'other': draw(st.integers(0, 9)),
            'opt': draw(st.integers(0, 2)),
            'optimizer': draw(st.sampled_from([None, True, False]))}


@subtest('C31', 'ntf_design', ntf_cases, quick=600, thorough=10000,
         rule='all cases count')
def c31_ntf(c, ctx):
    n, osr, H, k, x = c['n'], c['osr'], c['H_inf'], c['kind'], c['x']
    ctx.label(k)
    kw = {} if c['optimizer'] is None else {'use_optimizer': c['optimizer']}
    odd = 2 * (n // 2) + 1
    even = 2 * ((n + 1) // 2)
    # A centre frequency of a bandpass modulator
    f0 = .3 / osr + x * (.49 - .6 / osr) if osr > 2 else .25
    with Caught():
        if k == 'f0':
            for f in (.5 + 1e-9 + 3 * x, np.nextafter(.5, 1), np.inf):
                raises(ValueError, lambda: synthesizeNTF(
                    n, osr, c['opt'], H, f, **kw), 'f0=%r' % f,
                    'Frequency f0 must be less than 0.5')
            if even <= 6:
                z = synthesizeNTF(even, osr, 0, H, .5, **kw)[0]
                require(np.size(z) == even, 'f0=0.5 is accepted')
        elif k == 'odd':
            raises(ValueError, lambda: synthesizeNTF(
                odd, osr, c['opt'], H, f0, **kw), 'odd order at %r' % f0,
                'Order must be even for a bandpass modulator')
        elif k == 'odd low':
            # A frequency that is too low makes it lowpass
            f = .2499 / osr * x
            z = synthesizeNTF(odd, osr, 0, H, f, **kw)[0]
            require(np.size(z) == odd, 'order %d', odd)
        elif k == 'odd cheb':
            for f in (f0, .5, .26 / osr):
                raises(ValueError, lambda: synthesizeChebyshevNTF(
                    odd, osr, c['opt'], H, f), 'odd order at %r' % f,
                    'Order must be even for a bandpass modulator')
        elif k in ('opt', 'opt clans', '2D opt'):
            if k == '2D opt':
                opt = np.ones((1, n))
            else:
                m = c['other'] if c['other'] != n else n + 1
                opt = np.exp(1j * np.linspace(-.1, .1, m)) if c['bp'] \
                    else np.ones(m)
            if k == 'opt clans':
                raises(ValueError, lambda: clans(n, osr, 5, .95, opt),
                       'opt of shape %s' % (opt.shape,),
                       'The opt vector must be of length %d' % n)
            else:
                f, m = (f0, even) if c['bp'] else (0., n)
                if opt.size == m and opt.ndim == 1:
                    opt = opt[1:]
                raises(ValueError, lambda: synthesizeNTF(
                    m, osr, opt, H, f, **kw), 'opt of shape %s' % (
                        opt.shape,),
                    'The opt vector must be of length %d' % m)
        elif k == 'zeros':
            raises(ValueError, lambda: synthesizeNTF(
                15 + c['other'], osr, 1, H, 0, **dict(
                    kw, use_optimizer=False)), 'too high an order')
        else:
            raises(ValueError, lambda: clans(15 + c['other'], osr, 5, .95,
                                             1), 'too high an order')


MODELERS = ['cvxpy', 'cvxpy_old', 'picos']


@st.composite
def fir_cases(draw):
    k = draw(st.sampled_from(['modeler', 'modeler', 'bands', 'poles',
                              'filter']))
    return {'kind': k, 'n': draw(st.integers(1, 6)),
            'fun': draw(st.integers(0, 4)),
            'name': draw(st.sampled_from(['', 'cvx', 'CVXPY', 'cvxpy_tdr',
                                          'mosek', 'none', 'picos2'])),
            'nb': draw(st.integers(1, 3)), 'nosr': draw(st.integers(1, 4)),
            'modeler': draw(st.sampled_from(MODELERS)),
            'extra': draw(st.integers(1, 3)),
            'zf': draw(st.booleans()),
            'type': draw(st.sampled_from(['', 'fir', 'ss', 'sos', 'ZPK',
                                          'tf', 'impulse']))}


@subtest('C31', 'fir_design', fir_cases, quick=400, thorough=4000,
         rule='all cases count')
def c31_fir(c, ctx):
    n, k = c['n'], c['kind']
    ctx.label(k)

    def w(f):
        return 1. + np.cos(2 * np.pi * f)
    with Caught():
        if k == 'modeler':
            call = [lambda m: ntf_fir_from_q0(np.array([1., .5, .2]),
                                              modeler=m),
                    lambda m: ntf_fir_weighting(n, w, modeler=m),
                    lambda m: ntf_hybrid_weighting(n, w, modeler=m),
                    lambda m: ntf_fir_minmax(n, modeler=m),
                    lambda m: ntf_fir_audio_weighting(n, 32, w,
                                                      modeler=m)][c['fun']]
            raises(ValueError, lambda: call(c['name']), 'modeler %r (%d)' % (
                c['name'], c['fun']), 'Unsupported modeling backend')
        elif k == 'bands':
            f0 = [.05, .2, .35][:c['nb']]
            m = c['nosr'] if c['nosr'] != c['nb'] else 4
            raises(ValueError, lambda: ntf_fir_minmax(
                n + 2, [32.] * m, 1.5, f0, c['zf'], modeler=c['modeler'],
                show_progress=False), '%d bands with %d osr' % (c['nb'], m),
                'Incorrect multiband specification')
        elif k == 'poles':
            p = np.linspace(-.5, .5, n + c['extra'])
            raises(ValueError, lambda: ntf_hybrid_weighting(
                n, w, poles=p, modeler=c['modeler'], show_progress=False),
                '%d poles for order %d' % (p.size, n),
                'Too many poles provided')
        else:
            ntf = (np.ones(n), np.zeros(n), 1.)
            h = np.array([1., .5, .25])
            call = [lambda t: fb.quantization_noise_gain(ntf, h, t),
                    lambda t: fb.q0_from_filter(n, h, t),
                    lambda t: fb.synthesize_ntf_from_filter(n, h, t),
                    lambda t: legacy.quantization_noise_gain_by_conv(
                        ntf, h, t),
                    lambda t: fb.quantization_noise_gain_by_conv(
                        ntf, h, t)][c['fun']]
            raises(ValueError, lambda: call(c['type']), 'filter type %r (%d)'
                   % (c['type'], c['fun']),
                   'Incorrect filter type specification')


@st.composite
def misc_cases(draw):
    return {'kind': draw(st.sampled_from(['iso', 'iso ok', 'labels'])),
            'L': draw(st.one_of(st.floats(-1e6, -1e-9), st.floats(
                90.0000001, 1e6), st.sampled_from([-1, 91, 100]))),
            'ok': draw(st.one_of(st.floats(0, 90), st.sampled_from([0, 90]))),
            'hfe': draw(st.booleans()),
            'incr': draw(st.sampled_from([
                1., [1, 2, 3], [1], 'ab', 'a', None, [1., 2], [1, 2.5],
                []]))}


@subtest('C31', 'misc', misc_cases, quick=300, thorough=3000,
         rule='all cases count')
def c31_misc(c, ctx):
    k = c['kind']
    ctx.label(k)
    if k == 'iso':
        for fun in (iso226.iso226_spl_contour, iso226.iso226_spl_itpl):
            raises(ValueError, lambda: fun(c['L'], c['hfe']),
                   '%s at %r phon' % (fun.__name__, c['L']),
                   'out of bounds')
    elif k == 'iso ok':
        f, s = iso226.iso226_spl_contour(c['ok'], c['hfe'])
        require(np.size(f) == np.size(s) and np.all(np.isfinite(s)),
                'contour for %r phon: %r', c['ok'], s)
    else:
        raises(TypeError, lambda: delsig.axisLabels([1., 2, 3], c['incr']),
               'increment %r' % (c['incr'],),
               'incr must be integer or couple of integer')
