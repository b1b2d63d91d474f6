"""C17-C19, C22-C24: transforms, correlations, responses and plumbing."""
import warnings
from fractions import Fraction

import numpy as np

from ._common import (LAYOUTS, Reject, close, conj_roots, cplx, exact, layouts, poly, raises, reals, require, snapshot, st,
                      subtest)
from ._filters import FORMS, as_form, filters, ir_of, zpk_of

from pydsm import delsig, ft, relab
from pydsm.correlations import raw_acorr, raw_xcorr
from pydsm.ir import guess_ir_length, impulse_response


@st.composite
def vectors(draw, nmin=1, nmax=12, kinds=('real', 'complex', 'int')):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(nmin, nmax))
    if kind == 'int':
        v = draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n))
    elif kind == 'real':
        v = draw(st.lists(reals(-10, 10), min_size=n, max_size=n))
    else:
        v = [[draw(reals(-10, 10)), draw(reals(-10, 10))] for _ in range(n)]
    return {'kind': kind, 'v': v,
            'layout': draw(st.sampled_from(LAYOUTS))}


def vec(d):
    if d['kind'] == 'complex':
        return cplx(d['v'])
    return np.array(d['v'], dtype=int if d['kind'] == 'int' else float)


def arg(d):
    return layouts(vec(d), d['layout'])


fss = st.one_of(st.just(None), st.sampled_from([1, 2, 44100, .5]),
                st.floats(.1, 1e5))

# ------------------------------------------------------------------------ C17


@st.composite
def dtft_cases(draw):
    return {'x': draw(vectors()), 'fs': draw(fss),
            't0': draw(st.one_of(st.none(), st.integers(-5, 5),
                                 st.floats(-5, 5))),
            'f': draw(st.lists(st.floats(-1.5, 1.5), min_size=1,
                               max_size=4))}


@subtest('C17', 'dtft', dtft_cases, quick=1500, thorough=20000,
         rule='more than one sample out of 0 and a frequency other than 0')
def c17_dtft(c, ctx):
    x = vec(c['x'])
    fs = c['fs'] or 1
    t0 = c['t0'] or 0
    ctx.nontrivial(np.count_nonzero(x) > 1 and np.any(np.array(c['f']) != 0))
    ctx.label(c['x']['kind'])
    kw = {}
    if c['fs'] is not None:
        kw['fs'] = fs
    if c['t0'] is not None:
        kw['t0'] = t0
    a = arg(c['x'])
    snap = snapshot(a)
    X = ft.dtft(a, **kw)
    n = np.arange(len(x))
    scale = np.sum(np.abs(x)) + 1e-3
    for f in c['f']:
        th = 2 * np.pi * f * (n + t0)
        ref = np.sum(x * np.cos(th)) - 1j * np.sum(x * np.sin(th))
        close(X(f * fs), ref, 'dtft at %r' % f, 0, 1e-9 * scale)
    require(snapshot(a) == snap, 'argument changed')


@st.composite
def herm_cases(draw):
    return {'x': draw(vectors(kinds=('real', 'complex', 'complex', 'int'),
                              nmax=8)), 'fs': draw(fss),
            'f': draw(st.lists(st.floats(-1, 1), min_size=1, max_size=4))}


@subtest('C17', 'dtft_hermitian', herm_cases, quick=1000, thorough=15000,
         rule='more than one sample')
def c17_herm(c, ctx):
    x = vec(c['x'])
    if np.iscomplexobj(x):
        x = np.concatenate(([x[0].real], x[1:]))
    fs = c['fs'] or 1
    ctx.nontrivial(np.count_nonzero(x[1:]) > 0)
    ctx.label(c['x']['kind'])
    kw = {'fs': fs} if c['fs'] is not None else {}
    a = layouts(x, c['x']['layout'])
    X = ft.dtft_hermitian(a, **kw)
    N = len(x) - 1
    full = np.concatenate((np.conj(x[:0:-1]), x))
    n = np.arange(-N, N + 1)
    scale = np.sum(np.abs(full)) + 1e-3
    for f in c['f']:
        ref = np.sum(full * np.exp(-2j * np.pi * f * n))
        got = X(f * fs)
        require(not np.iscomplexobj(got), 'the transform is not real: %r',
                got)
        close(got, ref.real, 'dtft_hermitian at %r' % f, 0, 1e-9 * scale)
    # The DTFT of the whole vector, with the proper origin
    Y = ft.dtft(full, t0=-N, **kw)
    close(Y(c['f'][0] * fs), X(c['f'][0] * fs) + 0j, 'dtft of the whole', 0,
          1e-9 * scale)


@st.composite
def inv_cases(draw):
    return {'x': draw(vectors(nmax=8)), 'fs': draw(fss),
            'herm': draw(st.booleans()),
            't0': draw(st.one_of(st.just(0), st.integers(-4, 4))),
            'opts': draw(st.sampled_from([None, None, {'limit': 60},
                                          {'epsabs': 1e-10, 'limit': 70}])),
            'scalar': draw(st.booleans())}


@subtest('C17', 'inverse', inv_cases, quick=250, thorough=3000, budget=60,
         rule='more than one sample')
def c17_inverse(c, ctx):
    x = vec(c['x'])
    fs = c['fs'] or 1
    kw = {'fs': fs} if c['fs'] is not None else {}
    kw2 = dict(kw, quad_opts=c['opts']) if c['opts'] else kw
    n = len(x)
    tt = np.arange(-2, n + 2)
    if c['herm']:
        if np.iscomplexobj(x):
            # real, not symmetric: hermitian spectrum
            y = np.concatenate((x.real, x.imag))
            ref = np.concatenate(([0, 0], y, [0, 0]))
            tt = np.arange(-2, len(y) + 2)
            F = ft.dtft(y, **kw)
        else:
            F = ft.dtft_hermitian(x, **kw)
            full = np.concatenate((np.zeros(4), x[:0:-1], x, np.zeros(4)))
            m = len(x) - 1 + 4
            ref = full[m + tt]
        inv = ft.idtft_hermitian
    else:
        F = ft.dtft(x, t0=c['t0'], **kw)
        ref = np.concatenate(([0, 0], x, [0, 0])) + 0j
        tt = tt + c['t0']
        inv = ft.idtft
    ctx.nontrivial(np.count_nonzero(x) > 1)
    ctx.label(inv.__name__)
    scale = np.sum(np.abs(x)) + 1e-3
    t = list(tt) if n % 2 else tt
    got = inv(F, t, **kw2)
    if c['herm']:
        require(not np.iscomplexobj(got), 'not real')
    close(got, ref, inv.__name__, 0, 1e-7 * scale)
    if c['scalar']:
        i = len(tt) // 2
        s = inv(F, int(tt[i]) if n % 2 else tt[i], **kw2)
        require(np.ndim(s) == 0, 'scalar time gives %r', s)
        close(s, ref[i], inv.__name__ + ' of a scalar', 0, 1e-7 * scale)


@st.composite
def spectrum_cases(draw):
    return {'c': [draw(reals(-3, 3)) for _ in range(8)],
            'kind': draw(st.sampled_from(['real', 'real', 'complex',
                                          'hermitian', 'even'])),
            'fs': draw(fss), 'brk': draw(st.sampled_from([None, None, .2])),
            't': draw(st.lists(st.one_of(st.integers(-6, 6),
                                         st.floats(-6, 6)),
                               min_size=1, max_size=4)),
            'as': draw(st.sampled_from(['list', 'array', 'scalar',
                                        'numpy scalar']))}


@subtest('C17', 'any_spectrum', spectrum_cases, quick=250, thorough=4000,
         budget=60, rule='a spectrum not constant')
def c17_spectrum(c, ctx):
    """Spectra that are not those of finite sequences, at any time."""
    k, kind, brk = c['c'], c['kind'], c['brk']
    fs = c['fs'] or 1
    ctx.nontrivial(any(k[1:]))
    ctx.label(kind)

    def even(f):
        r = k[0] + k[1] * f * f + k[2] * abs(f) + k[3] * np.cos(7 * f)
        return r + (k[7] if brk is not None and abs(f) > brk else 0)

    def odd(f):
        return k[4] * f + k[5] * f ** 3 + k[6] * np.sin(9 * f)

    def G(f):
        if kind == 'real':
            return even(f) + odd(f)
        if kind == 'complex':
            return even(f) + odd(f) + 1j * (odd(f + .1) - even(f - .2))
        if kind == 'hermitian':
            return even(f) + 1j * odd(f)
        return even(f)
    seen = []

    def F(f):
        seen.append(f)
        return G(f / fs)
    knots = sorted({-.5, 0., .5} | (set() if brk is None else
                                    {-brk, brk} | {-.2 - brk, .2 - brk,
                                                   .2 + brk, brk - .1,
                                                   -brk - .1} |
                                    {.2, -.1}) |
                   ({.2, -.1} if kind == 'complex' else set()))
    knots = [a for a in knots if -.5 <= a <= .5]
    xg, wg = np.polynomial.legendre.leggauss(40)

    def inverse(t):
        tot = 0.
        for a, b in zip(knots, knots[1:]):
            f = (a + b) / 2 + (b - a) / 2 * xg
            tot += (b - a) / 2 * sum(
                w * G(v) * np.exp(2j * np.pi * v * t) for w, v in zip(wg, f))
        return tot
    tt = c['t']
    how = c['as']
    arg_ = tt[0] if how == 'scalar' else np.array(tt)[0] if \
        how == 'numpy scalar' else np.array(tt) if how == 'array' else tt
    n = 1 if 'scalar' in how else len(tt)
    ref = np.array([inverse(t) for t in tt[:n]])
    kw = {} if c['fs'] is None else {'fs': fs}
    if brk is not None and kind != 'complex':
        kw['quad_opts'] = {'points': [-brk, brk]}
    tol = 1e-6 if kind == 'complex' and brk is not None else 1e-7
    scale = sum(map(abs, k)) + 1e-3
    with warnings.catch_warnings():
        if tol > 1e-7:     # discontinuities that quad is not told about
            warnings.simplefilter('ignore')
        got = ft.idtft(F, arg_, **kw)
    require(np.shape(got) == (() if 'scalar' in how else (n,)),
            'shape %s', np.shape(got))
    close(np.reshape(got, -1), ref, 'idtft', 0, tol * scale)
    if kind in ('hermitian', 'even'):
        if 'quad_opts' in kw:
            kw['quad_opts'] = {'points': [brk]}
        del seen[:]
        got = ft.idtft_hermitian(F, arg_, **kw)
        require(min(seen) >= 0, 'value asked at negative frequency %r',
                min(seen))
        require(np.shape(got) == (() if 'scalar' in how else (n,)) and
                np.isrealobj(got), 'shape %s', np.shape(got))
        close(np.reshape(got, -1), ref.real, 'idtft_hermitian', 0,
              tol * scale)


@st.composite
def fft_cases(draw):
    return {'x': draw(vectors(nmax=24)), 'fs': draw(fss)}


@subtest('C17', 'fft_centered', fft_cases, quick=800, thorough=10000,
         rule='more than two samples')
def c17_fft(c, ctx):
    x = vec(c['x'])
    n = len(x)
    fs = c['fs'] or 1
    ctx.nontrivial(n > 2 and np.count_nonzero(x) > 1)
    ctx.label('even' if n % 2 == 0 else 'odd')
    r = ft.fft_centered(arg(c['x']), fs) if c['fs'] is not None else \
        ft.fft_centered(arg(c['x']))
    require(isinstance(r, tuple) and len(r) == 2, 'not a couple')
    ff, X = r
    lo = -(n // 2)
    k = np.arange(lo, lo + n)
    close(ff, k * fs / n, 'frequencies', 1e-9, 1e-9)
    ref = [np.sum(x * np.exp(-2j * np.pi * i * np.arange(n) / n)) for i in k]
    close(X, ref, 'samples', 0, 1e-9 * (np.sum(np.abs(x)) + 1e-3))
    F = ft.dtft(x, fs)
    close(X, [F(f) for f in ff], 'samples of the dtft', 0,
          1e-8 * (np.sum(np.abs(x)) + 1e-3))


# ------------------------------------------------------------------------ C18

@st.composite
def corr_cases(draw):
    kinds = ('real', 'int', 'int', 'complex')
    x, y = draw(vectors(kinds=kinds)), draw(vectors(kinds=kinds))
    return {'x': x, 'y': y, 'N': draw(st.integers(0, len(x['v'])))}


@subtest('C18', 'definition', corr_cases, quick=2000, thorough=30000,
         rule='lags beyond 0 and different vectors')
def c18_def(c, ctx):
    x, y, N = vec(c['x']), vec(c['y']), c['N']
    ctx.nontrivial(N > 0 and len(y) > 1)
    ctx.label('len(x) %s len(y)' % ('<' if len(x) < len(y) else
                                    '>' if len(x) > len(y) else '='))

    def ref(u, v):
        return [sum(u[n] * v[n - k] for n in range(len(u)) if
                    0 <= n - k < len(v)) + 0. for k in range(N + 1)]
    tol = 1e-10 * (np.sum(np.abs(x)) + 1) * (np.sum(np.abs(y)) + 1)
    a, b = arg(c['x']), arg(c['y'])
    sa, sb = snapshot(a), snapshot(b)
    close(raw_xcorr(a, b, N), ref(x, y), 'cross-correlation', 0, tol)
    tol = 1e-10 * (np.sum(np.abs(x)) + 1) ** 2
    close(raw_acorr(a, N), ref(x, x), 'autocorrelation', 0, tol)
    close(raw_acorr(a, N), raw_xcorr(a, a, N), 'same vectors', 0, tol)
    require((snapshot(a), snapshot(b)) == (sa, sb), 'arguments changed')


@subtest('C18', 'spectra', corr_cases, quick=500, thorough=8000,
         rule='more than one sample')
def c18_spectra(c, ctx):
    """All the lags give the (cross) power spectrum."""
    x, y = vec(c['x']).real, vec(c['y']).real
    ctx.nontrivial(len(x) > 1 and len(y) > 1)
    f = .37 * (c['N'] + 1) / 14.
    S = ft.dtft_hermitian(raw_acorr(x, len(x) - 1) + 0.)
    X, Y = ft.dtft(x), ft.dtft(y)
    s = (np.sum(np.abs(x)) + 1) * (np.sum(np.abs(x)) + np.sum(np.abs(y)) + 1)
    close(S(f), abs(X(f)) ** 2, 'power spectrum', 0, 1e-9 * s)
    p = raw_xcorr(x, y, len(x) - 1)
    m = raw_xcorr(y, x, len(y) - 1)
    got = ft.dtft(p)(f) + np.conj(ft.dtft(m)(f)) - p[0]
    close(got, X(f) * np.conj(Y(f)), 'cross spectrum', 0, 1e-9 * s)


# ------------------------------------------------------------------------ C19

@st.composite
def ir_cases(draw):
    return {'h': draw(filters(nmax=5, rmax=.97, square=True)),
            'form': draw(st.sampled_from(FORMS)),
            'm': draw(st.integers(1, 60))}


@subtest('C19', 'explicit_length', ir_cases, quick=1000, thorough=15000,
         rule='more samples than the order')
def c19_explicit(c, ctx):
    h, m = c['h'], c['m']
    ctx.nontrivial(m > len(h['p']))
    a = as_form(h, c['form'])
    snap = snapshot(a)
    got = impulse_response(a, m)
    require(snapshot(a) == snap, 'argument changed')
    require(got.shape == (m,) and not np.iscomplexobj(got),
            'shape %s for %d samples, %s', got.shape, m, got.dtype)
    ref = ir_of(h, m)
    close(got, ref, 'impulse response', 1e-7, 1e-8 * np.max(np.abs(ref)))
    close(impulse_response(a, m=m, db=20), ref, 'impulse response', 1e-7,
          1e-8 * np.max(np.abs(ref)))


@st.composite
def auto_cases(draw):
    """Distinct poles, at least .1 apart."""
    c = draw(ir_cases())
    c['db'] = draw(st.one_of(st.none(), st.sampled_from([20, 40, 100]),
                             st.floats(10, 140)))
    return c


@subtest('C19', 'automatic_length', auto_cases, quick=1000, thorough=15000,
         rule='some pole out of the origin and a length above the order')
def c19_auto(c, ctx):
    h = c['h']
    z, p, k = zpk_of(h)
    n = len(p)
    db = 80 if c['db'] is None else c['db']
    kw = {} if c['db'] is None else {'db': c['db']}
    if n > 1:
        d = np.abs(p[:, None] - p) + np.eye(n)
        if d.min() < .1:
            raise Reject
    if np.any((np.abs(p) < 1e-3) & (p != 0)):
        raise Reject
    a = as_form(h, c['form'])
    m = guess_ir_length(a, **kw)
    require(isinstance(m, (int, np.integer)) and m >= 1, 'length %r', m)
    got = impulse_response(a, **kw)
    require(got.shape == (m,), 'shape %s, the guess is %d', got.shape, m)
    ref = ir_of(h, m + 400)
    ctx.nontrivial(np.any(p != 0) and m > n + 1)
    close(got, ref[:m], 'impulse response', 1e-7, 1e-8 * np.max(np.abs(ref)))
    # what is left out is a sum of decayed exponentials
    res = []
    for i in range(n):
        den = np.prod([p[i] - p[j] for j in range(n) if j != i]) * \
            (p[i] if p[i] != 0 else 1)
        res.append(abs(k * np.prod(p[i] - z) / den))
    tol = 10 ** (-db / 20.)
    # samples after n exponentials: residue * |p|**t with |p|**t_p <= tol
    require(np.max(np.abs(ref[m:])) <= np.sum(res) * tol * 1.001 + 1e-12,
            'a sample of %g is left out of %g asking for %g dB',
            np.max(np.abs(ref[m:])), np.max(np.abs(ref)), db)
    # and the length is not out of proportion
    r = np.max(np.abs(p))
    if 1e-3 < r < 1:
        t = db / 20 * np.log(10) / -np.log(r)
        require(m <= 2 * t + 3 * n + 10, '%d samples for %g dB, slowest pole '
                '%g', m, db, r)
    if len(kw):
        require(guess_ir_length(a, db + 20) >= m, 'shorter with a larger db')


# ------------------------------------------------------------------------ C22

@st.composite
def tf_cases(draw):
    nz, np_ = draw(st.integers(0, 6)), draw(st.integers(0, 6))
    return {'z': draw(conj_roots(nz, rmax=1.5)),
            'p': draw(conj_roots(np_, rmax=.9)),
            'k': draw(st.one_of(st.sampled_from([1., 1, -2, 3]),
                                st.floats(-5, 5))),
            'inf': draw(st.integers(0, 4)) == 0,
            'unit': draw(st.sampled_from([1., 1., 1., 1e-9, 1e7, 1e30])),
            'form': draw(st.sampled_from(['zpk', 'zpk', 'list', 'ba'])),
            'x': draw(st.lists(st.tuples(reals(-3, 3), reals(-3, 3)).map(
                list), min_size=1, max_size=6)),
            'shape': draw(st.sampled_from(['scalar', 'list', '1d', '2d',
                                           'strided', 'real']))}


@subtest('C22', 'evalTF', tf_cases, quick=2000, thorough=30000,
         rule='both zeros and poles')
def c22_eval(c, ctx):
    z, p, k = cplx(c['z']), cplx(c['p']), c['k']
    if c['form'] != 'ba':
        # roots far away or very close to the origin, also w.r.t. the points
        z, p = z * c['unit'], p * c['unit']
    if c['inf'] and c['form'] != 'ba':
        H = (np.append(z, np.inf), np.append(p, [np.inf, -np.inf]), k)
    elif c['form'] == 'ba':
        H = (k * poly(z), poly(p))
    else:
        H = (z, p, k)
    if c['form'] == 'list':
        H = (list(H[0]), list(H[1]), k)
    x = cplx(c['x'])
    ctx.nontrivial(len(z) > 0 and len(p) > 0)
    ctx.label(c['form'])
    sh = c['shape']
    x = x.real.copy() if sh == 'real' else x
    a = complex(x[0]) if sh == 'scalar' else list(x) if sh == 'list' else \
        np.vstack((x, x * 2)) if sh == '2d' else layouts(x, 'strided') if \
        sh == 'strided' else x
    xx = np.asarray(a)
    d = np.array([abs(xx - r) for r in p]) if len(p) else np.ones(1)
    if d.size and d.min() < 1e-3:
        raise Reject
    if c['unit'] != 1 and len(z) + len(p) > 6 and c['form'] != 'ba':
        raise Reject
    snap = snapshot(a), snapshot(H)
    got = delsig.evalTF(H, a)
    require((snapshot(a), snapshot(H)) == snap, 'arguments changed')
    ref = np.full(xx.shape, k, complex)
    for r in z:
        ref = ref * (xx - r)
    for r in p:
        ref = ref / (xx - r)
    amp = np.full(xx.shape, abs(k))
    for r in z:
        amp = amp * (abs(xx) + abs(r))
    big = np.ones(xx.shape)
    small = np.ones(xx.shape)
    for r in p:
        small = small * abs(xx - r)
        big = big * (abs(xx) + abs(r))
    if xx.size == 1:
        require(np.ndim(got) == 0, 'shape %s for one point', np.shape(got))
        got = np.reshape(got, xx.shape)
    tol = 1e-12 * (amp / small) * (big / small if c['form'] == 'ba' else 1)
    require(np.shape(got) == xx.shape, 'shape %s instead of %s',
            np.shape(got), xx.shape)
    err = np.abs(got - ref)
    require(np.all(err <= tol + 1e-11 * np.abs(ref) + 1e-15),
            'got %r instead of %r', got, ref)
    # polynomials
    y = delsig.evalRPoly(list(z) if c['form'] == 'list' else z, a, k)
    ref = np.full(xx.shape, k, complex)
    for r in z:
        ref = ref * (xx - r)
    require(np.all(np.abs(np.reshape(y, xx.shape) - ref) <=
                   1e-12 * amp + 1e-15), 'evalRPoly: got %r instead of %r',
            y, ref)


@subtest('C22', 'evalTF_integers', lambda: st.fixed_dictionaries({
    'z': st.lists(st.integers(-60, 60), max_size=40),
    'p': st.lists(st.integers(-60, 60), max_size=12),
    'k': st.integers(1, 10**6), 'x': st.lists(
        st.integers(-10**9, 10**9).map(lambda i: i if i % 2 else i % 101),
        min_size=1, max_size=4),
    'form': st.sampled_from(['list', 'int array', 'ba', 'float']),
    'scalar': st.booleans()}), quick=600, thorough=10000,
    rule='a value that 64 bits cannot hold')
def c22_int(c, ctx):
    """Whole numbers, against exact arithmetic."""
    z, p, k, form = c['z'], c['p'], c['k'], c['form']
    x = c['x'][0] if c['scalar'] else c['x']
    if form == 'ba':
        z, p = z[:6], p[:6]

    def num(roots, v):
        y = Fraction(1)
        for r in roots:
            y *= v - r
        return y

    def coeffs(roots):
        y = [1]
        for r in roots:
            y = [a - r * b for a, b in zip(y + [0], [0] + y)]
        return y
    if any(num(p, v) == 0 for v in c['x']):
        raise Reject
    conv = {'float': lambda v: np.array(v, float),
            'int array': lambda v: np.array(v, int)}.get(form, list)
    if form == 'ba':
        H = ([k * a for a in coeffs(z)], coeffs(p))
        if max(abs(a) for a in H[0] + H[1]) > 2**62:
            raise Reject
    else:
        H = (conv(z), conv(p), k)
    got = np.reshape(delsig.evalTF(H, x), -1)
    ref = [k * num(z, v) / num(p, v) for v in np.reshape(x, -1).tolist()]
    ctx.nontrivial(any(abs(k * num(z, v)) > 2**63 for v in c['x']))
    ctx.label(form)
    for g, r, v in zip(got, ref, np.reshape(x, -1).tolist()):
        amp, d = Fraction(k), abs(num(p, v))
        if form == 'ba':
            amp = k * num([-abs(i) for i in z], abs(v))
            big = num([-abs(i) for i in p], abs(v))
            tol = amp / d * (big / d) * Fraction(1, 10**12)
        else:
            tol = abs(r) / 10**12
        require(abs(Fraction(complex(g).real) - r) <= tol and
                complex(g).imag == 0, 'got %r instead of %r at %r', g,
                float(r), v)
    if form != 'ba':
        for v in c['x']:
            y = complex(delsig.evalRPoly(conv(z), v, k))
            require(abs(Fraction(y.real) - k * num(z, v)) <=
                    abs(k * num(z, v)) / 10**12 and y.imag == 0,
                    'evalRPoly: %r instead of %r', y, float(k * num(z, v)))


@st.composite
def rms_cases(draw):
    return {'H': draw(filters(nmax=4, rmax=.9)),
            'form': draw(st.sampled_from(FORMS)),
            'f1': draw(st.floats(0, .5)), 'f2': draw(st.floats(0, .5)),
            'N': draw(st.one_of(st.none(), st.integers(2, 300))),
            'x': draw(vectors(kinds=('real', 'int', 'complex'), nmax=20)),
            'dc': draw(st.one_of(st.just(0.), reals(-100, 100)))}


@subtest('C22', 'rms', rms_cases, quick=1000, thorough=15000,
         rule='a proper band')
def c22_rms(c, ctx):
    N = c['N'] or 100
    kw = {} if c['N'] is None else {'N': N}
    ctx.nontrivial(abs(c['f1'] - c['f2']) > 1e-3)
    f = c['f1'] + (c['f2'] - c['f1']) * np.arange(N) / (N - 1.)
    e = np.exp(2j * np.pi * f)
    z, p, k = zpk_of(c['H'])
    v = np.full(N, k, complex)
    for r in z:
        v = v * (e - r)
    for r in p:
        v = v / (e - r)
    ref = np.sqrt(np.mean(np.abs(v) ** 2))
    close(delsig.rmsGain(as_form(c['H'], c['form']), c['f1'], c['f2'], **kw),
          ref, 'rms gain', 1e-7, 1e-7)
    # Fine sampling converges to the average of the square
    x = vec(c['x'])
    a = arg(c['x'])
    if c['dc']:
        x = x + c['dc']
        a = layouts(x, c['x']['layout'])
    snap = snapshot(a)
    s = np.sqrt(np.sum(np.abs(x) ** 2) / len(x))
    close(delsig.rms(a), s, 'rms', 1e-10, 1e-12)
    close(delsig.rms(a, False), s, 'rms', 1e-10, 1e-12)
    ac = np.sqrt(np.sum(np.abs(x - np.sum(x) / len(x)) ** 2) / len(x))
    close(delsig.rms(a, no_dc=True), ac, 'rms without dc', 1e-7, 1e-10)
    require(snapshot(a) == snap, 'argument changed')


# ------------------------------------------------------------------------ C23

@st.composite
def db_cases(draw):
    kind = draw(st.sampled_from(['scalar', 'int', '1d', '2d', 'list',
                                 'ints', 'i1', 'i2']))
    vals = draw(st.lists(st.one_of(
        st.floats(1e-12, 1e12), st.floats(.1, 10), st.just(0.),
        st.integers(1, 1000)), min_size=1, max_size=6))
    return {'kind': kind, 'v': vals, 'R': draw(st.one_of(
        st.none(), st.floats(.1, 1e4), st.sampled_from([50, 75, 600, 1]))),
        'sign': draw(st.sampled_from([1, 1, -1])),
        'd': draw(st.lists(st.floats(-200, 200), min_size=1, max_size=6))}


def shaped(v, kind):
    v = np.asarray(v)
    if kind == 'scalar':
        return float(v[0])
    if kind == 'int':
        return int(abs(v[0]))
    if kind == 'ints':
        return np.asarray(np.clip(v, -1e9, 1e9), dtype=int)
    if kind.startswith('i'):
        return np.asarray(np.clip(v, -100, 100), dtype=kind)
    if kind == '2d':
        return np.vstack((v, 2 * v))
    if kind == 'list':
        return [float(t) for t in v]
    return v


@subtest('C23', 'decibel', db_cases, quick=1500, thorough=20000,
         rule='some quantity other than 0 and 1')
def c23_db(c, ctx):
    x = shaped(np.array(c['v'], float) * c['sign'], c['kind'])
    ax = np.abs(np.asarray(x, float))
    if c['kind'].startswith('i'):
        ax = np.abs(np.asarray(x).astype(float))
    R = c['R'] or 50.
    kw = {} if c['R'] is None else {'R': R}
    ctx.nontrivial(np.any((ax != 0) & (ax != 1)))
    ctx.label(c['kind'])
    snap = snapshot(x)
    with np.errstate(divide='ignore'):
        l10 = np.log10(ax)
    close(delsig.dbv(x), 20 * l10, 'dbv', 1e-12, 1e-9)
    close(delsig.dbp(x), 10 * l10, 'dbp', 1e-12, 1e-9)
    m = 20 * l10 - 10 * np.log10(R) + 30
    close(delsig.dbm(x, **kw), m, 'dbm', 1e-12, 1e-9)
    require(snapshot(x) == snap, 'argument changed')
    # the inverses
    close(delsig.undbv(delsig.dbv(x)), ax, 'undbv(dbv)', 1e-9, 0)
    close(delsig.undbp(delsig.dbp(x)), ax, 'undbp(dbp)', 1e-9, 0)
    close(delsig.undbm(delsig.dbm(x, **kw), **kw), ax, 'undbm(dbm)', 1e-9, 0)
    d = shaped(c['d'], c['kind'] if c['kind'] in ('scalar', '2d', 'list')
               else '1d')
    dd = np.asarray(d, float)
    close(delsig.undbv(d), np.exp(dd / 20 * np.log(10)), 'undbv', 1e-9, 0)
    close(delsig.undbp(d), np.exp(dd / 10 * np.log(10)), 'undbp', 1e-9, 0)
    close(delsig.undbm(d, **kw), np.sqrt(R * 1e-3 * np.exp(
        dd / 10 * np.log(10))), 'undbm', 1e-9, 0)
    close(delsig.dbv(delsig.undbv(d)), dd, 'dbv(undbv)', 1e-9, 1e-9)
    close(delsig.dbp(delsig.undbp(d)), dd, 'dbp(undbp)', 1e-9, 1e-9)
    close(delsig.dbm(delsig.undbm(d, **kw), **kw), dd, 'dbm(undbm)', 1e-9,
          1e-9)
    # Matlab-like one
    if np.all(ax > 0):
        kr = {} if c['R'] is None else {'R': R}
        y = x if c['kind'] != 'list' else np.asarray(x)
        r1 = 1. if c['R'] is None else R
        close(relab.db(y, **kr), 20 * l10 - 10 * np.log10(r1), 'db', 1e-12,
              1e-9)
        close(relab.db(y, 'voltage', **kr), 20 * l10 - 10 * np.log10(r1),
              'db of a voltage', 1e-12, 1e-9)
        if c['sign'] > 0 and c['kind'] not in ('i1', 'i2'):
            close(relab.db(y, 'power'), 10 * l10, 'db of a power', 1e-12,
                  1e-9)


# ------------------------------------------------------------------------ C24

@st.composite
def pad_cases(draw):
    nd = draw(st.integers(1, 2))
    shape = [draw(st.integers(0 if nd == 1 else 1, 5)) for _ in range(nd)]
    n = int(np.prod(shape))
    return {'shape': shape, 'v': draw(st.lists(reals(-9, 9), min_size=n,
                                               max_size=n)),
            'cplx': draw(st.booleans()), 'extra': draw(st.integers(-2, 5)),
            'int': draw(st.booleans()),
            'layout': draw(st.sampled_from(['plain', 'F', 'strided'])),
            'val': draw(st.one_of(st.none(), reals(-5, 5),
                                  st.integers(-5, 5))),
            'cval': draw(st.integers(0, 3)) == 0}


@subtest('C24', 'padding', pad_cases, quick=1200, thorough=15000,
         rule='something is added')
def c24_pad(c, ctx):
    x = np.array(c['v'], float).reshape(c['shape'])
    if c['cplx']:
        x = x * (1 + 2j)
    elif c['int']:
        x = np.round(x).astype(int)
    x = layouts(x, c['layout'])
    val = 0 if c['val'] is None else c['val']
    if c['cval']:
        val = val * (1 - 1j)
    kw = {} if c['val'] is None else {'val': val}
    ctx.nontrivial(c['extra'] > 0)
    ctx.label('%dD' % x.ndim)
    snap = snapshot(x)
    for fun, axis, before in ((delsig.padl, -1, True),
                              (delsig.padr, -1, False),
                              (delsig.padt, 0, True),
                              (delsig.padb, 0, False)):
        n = x.shape[axis] + c['extra']
        if n < 0:
            continue
        if c['extra'] < 0:
            # Cannot be: an error or the array as it is, no truncation
            try:
                y = fun(x, n, **kw)
            except ValueError:
                continue
            exact(y, x, fun.__name__ + ' to a shorter size')
            continue
        w = [(0, 0)] * x.ndim
        w[axis] = (c['extra'], 0) if before else (0, c['extra'])
        y = fun(x, n, **kw)
        exact(y, np.pad(x.astype(np.result_type(x, val, float)), w,
                        constant_values=val), fun.__name__)
        require(snapshot(x) == snap, 'argument changed')


@st.composite
def part_cases(draw):
    n, m, q = (draw(st.integers(0, 4)), draw(st.integers(1, 4)),
               draw(st.integers(1, 4)))
    return {'n': n, 'm': m, 'q': q, 'layout': draw(st.sampled_from(LAYOUTS)),
            'auto': draw(st.booleans())}


@subtest('C24', 'partitionABCD', part_cases, quick=500, thorough=5000,
         rule='at least one state')
def c24_part(c, ctx):
    n, m, q = c['n'], c['m'], c['q']
    M = np.arange((n + q) * (n + m), dtype=float).reshape(n + q, n + m) + 1
    a = layouts(M, c['layout'])
    ctx.nontrivial(n > 0)
    if c['auto']:
        if min(m, q) != 1:
            # fewest inputs and outputs: n is as large as possible
            n = min(M.shape) - 1
        r = delsig.partitionABCD(a)
    else:
        r = delsig.partitionABCD(a, m)
    require(len(r) == 4, '%d blocks', len(r))
    A, B, C, D = r
    exact(A, M[:n, :n], 'A')
    exact(B, M[:n, n:], 'B')
    exact(C, M[n:, :n], 'C')
    exact(D, M[n:, n:], 'D')
    for x in r:
        require(isinstance(x, np.ndarray) and x.ndim == 2, 'block %r', x)
    exact(np.vstack((np.hstack((A, B)), np.hstack((C, D)))), M, 'reassembly')
    if isinstance(a, np.ndarray):
        for x in r:
            require(x.size == 0 or np.shares_memory(x, a), 'a block is a copy')


@st.composite
def label_cases(draw):
    pts = st.one_of(reals(-100, 100), st.floats(-3e-6, 3e-6),
                    st.integers(-1000, 1000).map(float),
                    st.floats(-1e8, 1e8))
    return {'p': draw(st.lists(pts, min_size=0, max_size=12)),
            'incr': draw(st.one_of(st.integers(1, 5), st.lists(
                st.integers(0, 4), min_size=2, max_size=2).filter(
                    lambda v: v[1] > 0))),
            'tuple': draw(st.booleans()),
            'layout': draw(st.sampled_from(LAYOUTS))}


@subtest('C24', 'axisLabels', label_cases, quick=1000, thorough=10000,
         rule='some label and some skipped point')
def c24_labels(c, ctx):
    p = np.array(c['p'], float)
    a = layouts(p, c['layout'])
    incr = c['incr']
    snap = snapshot(a)
    got = delsig.axisLabels(a, tuple(incr) if isinstance(incr, list) and
                            c['tuple'] else incr)
    require(snapshot(a) == snap, 'the argument is changed')
    s, d = (0, incr) if isinstance(incr, int) else incr
    ref = []
    i = s
    while i < len(p):
        ref.append('%g' % (0. if abs(p[i]) < 1e-6 else p[i]))
        i += d
    ctx.nontrivial(0 < len(ref) < len(p))
    require(isinstance(got, list) and got == ref, 'got %r instead of %r',
            got, ref)
    for bad in ('a', 1.5, [1, 2, 3], [1.5, 2], None):
        raises(TypeError, lambda: delsig.axisLabels(a, bad), 'increment %r' %
               (bad,), 'incr')


@st.composite
def plot_cases(draw):
    nz, np_ = draw(st.integers(0, 5)), draw(st.integers(0, 5))
    return {'z': draw(conj_roots(nz, rmax=1.3)),
            'p': draw(conj_roots(np_, rmax=.95)),
            'form': draw(st.sampled_from(['zpk', 'zpk', 'ba'])),
            'color': draw(st.sampled_from([None, 'r', ['r', 'g']])),
            'ms': draw(st.sampled_from([None, 3, 9])),
            'list': draw(st.booleans()), 'seed': draw(st.integers(0, 99))}


@subtest('C24', 'plotPZ', plot_cases, quick=150, thorough=1500, budget=60,
         rule='zeros and poles')
def c24_plot(c, ctx):
    import matplotlib
    matplotlib.use('Agg', force=True)
    import matplotlib.pyplot as plt
    z, p = cplx(c['z']), cplx(c['p'])
    if c['form'] == 'ba':
        # roots far apart, so that they are computed with accuracy
        for r in (z, p):
            if len(r) > 1 and (np.abs(r[:, None] - r) + 9 * np.eye(len(
                    r))).min() < .15:
                raise Reject
    rng = np.random.default_rng(c['seed'])
    z, p = rng.permutation(z), rng.permutation(p)
    ctx.nontrivial(len(z) > 0 and len(p) > 0)
    H = (poly(z), poly(p)) if c['form'] == 'ba' else (z, p, 1.)
    if c['form'] == 'ba' and (len(z) > len(p)):
        raise Reject
    kw = {}
    if c['color'] is not None:
        kw['color'] = c['color']
    if c['ms'] is not None:
        kw['markersize'] = c['ms']
    if c['list']:
        kw['showlist'] = True
    plt.close('all')
    try:
        delsig.plotPZ(H, **kw)
        ax = plt.gca()
        got = {'x': [], 'o': []}
        for ln in ax.lines:
            m = ln.get_marker()
            if m in got:
                got[m] += list(np.asarray(ln.get_xdata()) +
                               1j * np.asarray(ln.get_ydata()))
                if len(np.atleast_1d(ln.get_xdata())):
                    want = c['color'] or 'b'
                    if isinstance(want, list):
                        want = want[0 if m == 'x' else 1]
                    require(ln.get_color() == want, 'colour %r',
                            ln.get_color())
                    require(ln.get_markersize() == (c['ms'] or 5),
                            'marker size %r', ln.get_markersize())
                    require(ln.get_linestyle() in ('None', 'none', ''),
                            'lines between the points')
        tol = 1e-6 if c['form'] == 'ba' else 1e-9
        for m, r, name in (('x', p, 'poles'), ('o', z, 'zeros')):
            require(len(got[m]) == len(r), '%d marks for %d %s', len(got[m]),
                    len(r), name)
            left = list(got[m])
            for v in r:
                d = [abs(v - w) for w in left]
                i = int(np.argmin(d))
                require(d[i] < tol, '%s: %r is not shown', name, v)
                left.pop(i)
        require(any(len(ln.get_xdata()) > 20 and np.allclose(np.hypot(
            ln.get_xdata(), ln.get_ydata()), 1) for ln in ax.lines),
            'no unit circle')
        txt = [t.get_text() for t in ax.texts]
        if c['list']:
            for r, name in ((p, 'Poles:'), (z, 'Zeros:')):
                if len(r) or name == 'Poles:':
                    require(txt.count(name) == 1, 'title %r', name)
            ent = [t for t in txt if not t.endswith(':')]
            want = []
            for v in list(p[p.imag >= 0]) + list(z[z.imag >= 0]):
                want.append('$%+.4f$' % v.real if v.imag == 0 else
                            r'$%+.4f\pm \mathrm{j}%.4f$' % (v.real, v.imag))
            if c['form'] == 'zpk':
                require(sorted(ent) == sorted(want), 'list %r instead of %r',
                        ent, want)
            else:
                require(len(ent) == len(want), '%d entries for %d', len(ent),
                        len(want))
        else:
            require(not txt, 'unwanted text %r', txt)
    finally:
        plt.close('all')
