"""C14, C25, C26: psychoacoustics."""
import numpy as np
from scipy.interpolate import make_interp_spline
from scipy.linalg import toeplitz

from ._common import (Caught, Reject, close, exact, layouts, raises, related,
                      require, snapshot, st, subtest)
from .c05_ntf import H, same_roots, zpk_form
from .c11_fir import (bound, fir_form, peak_ok, q0_ref, response, run, slack,
                      with_scs)

from pydsm import audio_weightings as aw
from pydsm import iso226
from pydsm.delsig import ds_optzeros
from pydsm.exceptions import PyDsmApproximationWarning
from pydsm.NTFdesign import ntf_dunn, ntf_fir_audio_weighting
from pydsm.NTFdesign.psychoacoustic import dunn_optzeros, dunn_optzeros_cplx

# ------------------------------------------------------------ reference curves


def amp(z, p):
    """Magnitude of an analogue filter with roots in Hz, 1 at 1 kHz."""
    def h(f):
        s = 1j * np.asarray(f, float)
        r = np.ones(s.shape)
        for a in z:
            r = r * np.abs(s - a)
        for a in p:
            r = r / np.abs(s - a)
        return r
    g = h(1000.)
    return lambda f: h(f) / g


def cc(a, n=1):
    return [a, np.conj(a)] * n


# Published corner frequencies, rounded as customary
REF = {
    'a': amp([0] * 4, [-20.6] * 2 + [-107.7, -737.9] + [-12200] * 2),
    'b': amp([0] * 3, [-20.6] * 2 + [-158.5] + [-12200] * 2),
    'c': amp([0] * 2, [-20.6] * 2 + [-12200] * 2),
    'd': amp([0] + cc(-519.8 + 876.2j), [-282.7, -1160] +
             cc(-1712 + 2628j)),
    'f': amp([0] * 3 + cc(-580 + 1030j) + cc(-3180 + 8750j, 3),
             [-180] * 3 + [-1630] * 2 + cc(-2510 + 3850j, 4) +
             cc(-6620 + 14290j, 20)),
}
# Attenuations in dB at some frequencies in the tables of IEC 61672 (A, C) and
# IEC 651 (B), given with one decimal digit
TABLE = {
    'a': {31.5: -39.4, 63: -26.2, 125: -16.1, 250: -8.6, 500: -3.2, 1000: 0,
          2000: 1.2, 4000: 1.0, 8000: -1.1, 16000: -6.6, 12500: -4.3},
    'b': {31.5: -17.1, 63: -9.3, 125: -4.2, 250: -1.3, 500: -.3, 1000: 0,
          2000: -.1, 4000: -.7, 8000: -2.9, 16000: -8.4},
    'c': {31.5: -3.0, 63: -.8, 125: -.2, 250: 0, 500: 0, 1000: 0, 2000: -.2,
          4000: -.8, 8000: -3.0, 16000: -8.5},
}
FUN = {k: getattr(aw, k + '_weighting') for k in 'abcdf'}
ZPK = {k: getattr(aw, k + '_zpk') for k in 'abcdf'}
GAIN = {k: getattr(aw, k + '_weighting_gain') for k in 'abcdf'}
RTOL = {'a': 1e-9, 'b': 1e-9, 'c': 1e-9, 'd': 2e-4, 'f': 1e-9}


# ------------------------------------------------------------------------ C25

freqs = st.one_of(st.sampled_from([0., 1000., 20., 20000., 12200.]),
                  st.floats(1, 24000), st.floats(0, 1e5),
                  st.integers(1, 25000))


@st.composite
def curve_cases(draw):
    return {'k': draw(st.sampled_from('abcdf')),
            'f': draw(st.lists(freqs, min_size=1, max_size=8)),
            'layout': draw(st.sampled_from(['plain', 'strided', 'reversed',
                                            'readonly', '2d']))}


@subtest('C25', 'curves', curve_cases, quick=1500, thorough=20000,
         rule='a frequency other than 0 and 1 kHz')
def c25_curves(c, ctx):
    k, fun = c['k'], FUN[c['k']]
    f = np.array(c['f'], float)
    x = f if c['layout'] == '2d' else layouts(f, c['layout'])
    if c['layout'] == '2d':
        x = np.column_stack((f, f[::-1]))
    ctx.nontrivial(np.any((f != 0) & (f != 1000)))
    ctx.label(k)
    snap = snapshot(np.asarray(x))
    ref = REF[k](x)
    tol = RTOL[k]
    close(fun(x, power=False), ref, '%s weighting amplitude' % k, tol, 1e-60)
    close(fun(x), ref ** 2, '%s weighting power' % k, 3 * tol, 1e-60)
    close(fun(x, True, True), ref ** 2, '%s weighting power' % k, 3 * tol,
          1e-60)
    require(snapshot(np.asarray(x)) == snap, 'argument changed')
    # Scalars, also as integers
    for v in c['f'][:3]:
        close(fun(v, power=False), REF[k](float(v)), '%s at %r' % (k, v), tol,
              1e-60)
        r = fun(v)
        require(np.ndim(r) == 0, '%s: shape %s for a scalar', k, np.shape(r))
    # Whole numbers of Hz
    whole = np.round(f)
    for dt in ('int64', 'int32', 'uint16'):
        i = whole[whole <= np.iinfo(dt).max].astype(dt)
        close(fun(i, power=False), REF[k](i.astype(float)),
              '%s weighting for %s' % (k, dt), tol, 1e-60)
        if i.size:
            close(fun(i[0]), REF[k](float(i[0])) ** 2,
                  '%s weighting for one %s' % (k, dt), 3 * tol, 1e-60)
    # Without the normalisation
    raw = fun(x, normal=False, power=False)
    rawp = fun(x, normal=False)
    close(rawp, raw ** 2, '%s unnormalised power' % k, 1e-9, 1e-60)
    g = GAIN[k]
    if k == 'f':
        g = np.sqrt(g)
    close(raw * g, fun(x, power=False), '%s: normalisation gain' % k, 1e-9,
          1e-60)
    # Transfer function
    z, p, gain = ZPK[k]
    s = 2j * np.pi * x
    lg = np.full(s.shape, np.log(gain))
    with np.errstate(divide='ignore'):
        for a in z:
            lg = lg + np.log(np.abs(s - a))
    for a in p:
        lg = lg - np.log(np.abs(s - a))
    h0 = np.log(gain) + sum(np.log(np.abs(2000j * np.pi - a)) for a in z) - \
        sum(np.log(np.abs(2000j * np.pi - a)) for a in p)
    close(np.exp(lg - h0), fun(x, power=False), '%s: zpk form' % k, 1e-3 if
          k == 'd' else 1e-9, 1e-60)
    if k in 'abc':         # the gain of the others is documented as arbitrary
        close(np.exp(lg), raw, '%s: zpk form, unnormalised' % k, 1e-9, 1e-60)


related('C25', 'related', curve_cases, c25_curves, ['k', 'f', 'layout'], 300,
        near=['f'])


@st.composite
def point_cases(draw):
    k = draw(st.sampled_from('abc'))
    return {'k': k, 'f': draw(st.sampled_from(sorted(TABLE[k])))}


@subtest('C25', 'standard', point_cases, quick=100)
def c25_standard(c, ctx):
    """The tables in the standards."""
    k, f = c['k'], c['f']
    got = 20 * np.log10(FUN[k](f, power=False))
    # the nominal frequencies stand for those in the series 10**(n/10)
    require(abs(got - TABLE[k][f]) < .16, '%s at %g Hz: %g dB, %g tabled', k, f,
            got, TABLE[k][f])


# ------------------------------------------------------------------------ C26

F = [20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630,
     800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000,
     12500]
AF = [532, 506, 480, 455, 432, 409, 387, 367, 349, 330, 315, 301, 288, 276,
      267, 259, 253, 250, 246, 244, 243, 243, 243, 242, 242, 245, 254, 271,
      301]
LU = [-316, -272, -230, -191, -159, -130, -103, -81, -62, -45, -31, -20, -11,
      -4, 0, 3, 5, 0, -27, -41, -10, 17, 25, 12, -21, -71, -112, -107, -31]
TF = [785, 687, 595, 511, 440, 375, 315, 265, 221, 179, 144, 114, 86, 62, 44,
      30, 22, 24, 35, 17, -13, -42, -60, -54, -15, 60, 126, 139, 123]


def contour(L, hfe):
    """Sect. 4.1 of ISO 226:2003, point by point."""
    out = []
    for a, u, t in zip(AF, LU, TF):
        a, u, t = a / 1000., u / 10., t / 10.
        A = 4.47e-3 * (10 ** (.025 * L) - 1.15) + \
            (.4 * 10 ** ((t + u) / 10 - 9)) ** a
        out.append(10 / a * np.log10(A) - u + 94)
    return np.array(F + [20000] * hfe, float), \
        np.array(out + [out[0]] * hfe)


@st.composite
def iso_cases(draw):
    return {'L': draw(st.one_of(st.floats(0, 90), st.integers(0, 90),
                                st.sampled_from([0, 90, 0., 90., 40]))),
            'L2': draw(st.floats(0, 90)), 'hfe': draw(st.booleans()),
            'k': draw(st.integers(1, 5)),
            'spoil': draw(st.integers(0, 6)), 'n': draw(st.integers(0, 28)),
            'f': draw(st.lists(st.floats(0, 1), min_size=1, max_size=6))}


@subtest('C26', 'contours', iso_cases, quick=800, thorough=10000,
         rule='a loudness strictly within the range')
def c26_contours(c, ctx):
    L, hfe = c['L'], c['hfe']
    ctx.nontrivial(0 < L < 90)
    f, spl = contour(L, hfe)
    g, got = iso226.iso226_spl_contour(L, hfe) if c['k'] % 2 else \
        iso226.iso226_spl_contour(L_N=L, hfe=hfe)
    exact(g, f, 'frequencies')
    close(got, spl, 'contour', 1e-10, 1e-9)
    close(iso226.tabled_L_p(L, hfe), spl, 'table of levels', 1e-10, 1e-9)
    if L == 40:
        close(iso226.iso226_spl_contour(hfe=hfe)[1], spl, 'default', 1e-10,
              1e-9)
        if not hfe:
            close(iso226.iso226_spl_contour()[1], spl, 'default', 1e-10, 1e-9)
    # 1 phon is 1 dB at 1 kHz, but for the rounding of the parameters
    # (near the threshold of hearing the law is not exact)
    if L >= 20:
        require(abs(got[17] - L) < .2, 'level of %g phon at 1 kHz is %g', L,
                got[17])
    # Loudness
    lo, hi = sorted((float(L), c['L2']))
    if hi - lo > 1e-3:
        a = iso226.iso226_spl_contour(lo, hfe)[1]
        b = iso226.iso226_spl_contour(hi, hfe)[1]
        require(np.all(b > a), 'contour for %g phon is not above %g phon', hi,
                lo)
    # Inverse
    for i in (c['n'], 28 + hfe):
        got_n = iso226.tabled_L_N(spl[i], hfe)
        require(np.shape(got_n) == f.shape, 'loudness: shape %s',
                np.shape(got_n))
        require(abs(got_n[i] - L) < .1, 'loudness of %g dB at %g Hz is %g, '
                'not %g', spl[i], f[i], got_n[i], L)
        if hfe:
            require(got_n[29] == got_n[0], 'loudness at 20 kHz')
    # Tables
    for fun, t, s in ((iso226.tabled_f, F, 1.), (iso226.tabled_alpha_f, AF,
                                                 1000.),
                      (iso226.tabled_L_U, LU, 10.), (iso226.tabled_T_f, TF,
                                                     10.)):
        v = fun(hfe)
        t = np.array(t + ([20000] if t is F else t[:1]) * hfe) / s
        close(v, t, fun.__name__, 1e-12, 1e-12)
        # what is returned belongs to the caller
        if c['spoil'] == 0:
            v *= 2
            close(fun(hfe), t, fun.__name__ + ' after a change', 1e-12, 1e-12)


@subtest('C26', 'interpolation', iso_cases, quick=600, thorough=8000,
         rule='frequencies out of the table')
def c26_itpl(c, ctx):
    L, hfe, k = c['L'], c['hfe'], c['k']
    f, spl = contour(L, hfe)
    if k == 3 and not hfe:
        s = iso226.iso226_spl_itpl(L)
    else:
        s = iso226.iso226_spl_itpl(L, hfe, k)
    ctx.nontrivial(True)
    close(s(f), spl, 'interpolation at the tabled frequencies', 1e-7, 1e-6)
    x = f[0] + (f[-1] - f[0]) * np.array(c['f'])
    y = np.asarray(s(x))
    require(y.shape == x.shape, 'shape %s', y.shape)
    if k == 1:
        close(y, np.interp(x, f, spl), 'linear interpolation', 1e-8, 1e-7)
    else:
        # an interpolating spline of degree k: FITPACK's choice of knots
        if k % 2:
            t = f[(k + 1) // 2:-(k + 1) // 2]
        else:
            m = (f[1:] + f[:-1]) / 2
            t = m[k // 2:-(k // 2)]
        t = np.concatenate(([f[0]] * (k + 1), t, [f[-1]] * (k + 1)))
        ref = make_interp_spline(f, spl, k, t=t)
        close(y, ref(x), 'interpolation', 1e-6, 1e-4)
    v = s(float(x[0]))
    require(np.size(v) == 1, 'scalar frequency')
    close(float(v), y[0], 'scalar frequency', 1e-12, 1e-12)


for _n, _f in (('contours', c26_contours), ('interpolation', c26_itpl)):
    related('C26', _n + '_related', iso_cases, _f, ['L', 'hfe', 'k', 'f'], 150,
            near=['L', 'f'])


@st.composite
def bad_iso(draw):
    return {'L': draw(st.one_of(st.floats(-100, -1e-6), st.floats(90.0001, 500),
                                st.sampled_from([-1, 91, -1e-9, 90.0000001]))),
            'hfe': draw(st.booleans())}


@subtest('C26', 'out_of_range', bad_iso, quick=200)
def c26_bad(c, ctx):
    for fun in (iso226.iso226_spl_contour, iso226.iso226_spl_itpl):
        raises(ValueError, lambda: fun(c['L'], c['hfe']),
               '%s(%r)' % (fun.__name__, c['L']), 'out of bounds')


# ------------------------------------------------------------------------ C14

DUNN = {1: [0], 2: [4.014], 3: [0, 6.443], 4: [3.590, 11.954],
        5: [0, 4.308, 12.959], 6: [3.325, 7.078, 13.389],
        7: [0, 4.017, 10.471, 13.842], 8: [2.933, 5.167, 12.012, 14.381]}


def notches(n):
    v = [s * x / 22.05 for x in DUNN[n] for s in ((1, -1) if x else (1,))]
    return np.array(v)


@st.composite
def dunn_cases(draw):
    return {'order': draw(st.integers(1, 8)),
            'osr': draw(st.one_of(st.sampled_from([16, 32, 64, 128]),
                                  st.floats(8, 256))),
            'H_inf': draw(st.one_of(st.sampled_from([1.5, 2.]),
                                    st.floats(1.1, 3)))}


@subtest('C14', 'dunn', dunn_cases, quick=300,
         rule='order 2 or more')
def c14_dunn(c, ctx):
    n, osr, hi = c['order'], c['osr'], c['H_inf']
    ctx.nontrivial(n > 1)
    same_roots(dunn_optzeros(n), notches(n), 'normalised zeros', 1e-12)
    z = np.exp(1j * np.pi * notches(n) / osr)
    same_roots(dunn_optzeros_cplx(n, osr), z, 'complex zeros', 1e-12)
    with Caught() as w:
        ntf = ntf_dunn(n, osr, hi)
    if w.has(PyDsmApproximationWarning):
        ctx.label('warned')
    z2, p, k = zpk_form(ntf, n)
    same_roots(z2, z, 'zeros', 1e-9)
    require(np.all(np.abs(p) < 1), 'unstable poles %r', p)
    if not w.has(PyDsmApproximationWarning):
        close(H(ntf, .5)[0], hi, 'H_inf', 1e-5)
    # F-weighted noise: not worse than that of unweighted zeros
    if n > 1:
        f = np.linspace(1, 22050, 4000)
        wgt = REF['f'](f) ** 2
        a = np.prod([(f / 22050 - x) ** 2 for x in notches(n)], axis=0)
        b = np.prod([(f / 22050 - x) ** 2 for x in ds_optzeros(n, 1)], axis=0)
        got = np.prod([(f / 22050 - x) ** 2 for x in dunn_optzeros(n)],
                      axis=0)
        require(np.sum(got * wgt) <= np.sum(b * wgt),
                'F-weighted noise is larger than with unweighted zeros')
        close(np.sum(got * wgt), np.sum(a * wgt), 'noise', 1e-6)


@st.composite
def audio_cases(draw):
    return {'order': draw(st.integers(1, 10)),
            'osr': draw(st.one_of(st.sampled_from([2, 4, 8, 16, 32]),
                                  st.floats(1.5, 40))),
            'w': draw(st.one_of(st.sampled_from('abcdf'),
                                st.sampled_from(['default', 'fun_a', 'fun_f',
                                                 'custom', 'steep',
                                                 'steep']))),
            'band': draw(st.sampled_from([None, None, 22.05e3, 20e3, 12e3,
                                          4e3])),
            'attn': draw(st.sampled_from([None, 3, 10, 20, 30, 40, 60, 80,
                                          120])),
            'H_inf': draw(st.one_of(st.sampled_from([1.5, None]),
                                    st.floats(1.2, 3))),
            'norm': draw(st.sampled_from(['default', 'auto', None, 1.])),
            'modeler': draw(st.sampled_from([None, None, 'cvxpy_old', 'cvxpy',
                                             'picos']))}


@subtest('C14', 'audio_weighting', audio_cases, quick=220, budget=90,
         rule='order 2 or more with H_inf making a difference')
def c14_audio(c, ctx):
    order, osr = c['order'], c['osr']
    band = c['band'] or 22.05e3
    attn = c['attn'] or 120
    H_inf = c['H_inf'] or 1.5
    kw = {'quad_opts': {'points': [.5 / osr], 'limit': 400}}
    if c['w'] in ('default',):
        ref = REF['f']
    elif c['w'].startswith('fun_'):
        ref = REF[c['w'][4:]]
        kw['audio_weighting'] = FUN[c['w'][4:]]
    elif c['w'] == 'custom':
        def half(f):
            return .3 / (1 + (f / 3000.) ** 2)
        kw['audio_weighting'] = half
        ref = lambda f: np.sqrt(half(f))
    elif c['w'] == 'steep':
        # Much of the band is under the floor
        def low_pass(f):
            return 1 / (1 + (f / 3000.) ** 8)
        kw['audio_weighting'] = low_pass
        ref = lambda f: np.sqrt(low_pass(f))
    else:
        ref = REF[c['w']]
        kw['audio_weighting'] = c['w']
    if c['band']:
        kw['audio_band'] = c['band']
    if c['attn']:
        kw['max_attn'] = c['attn']
    if c['H_inf']:
        kw['H_inf'] = H_inf
    if c['norm'] != 'default':
        kw['normalize'] = c['norm']
    if c.get('modeler'):
        kw['modeler'] = c['modeler']
    if c.get('modeler') == 'scs' and attn > 40:
        raise Reject
    ctx.label(str(c.get('modeler')))
    ma = 10 ** (-attn / 10.)

    def w(f):
        return np.maximum(np.where(f <= .5 / osr, ref(np.minimum(
            f * 2 * osr, 1) * band) ** 2, 0), ma)
    # finer panels close to the origin, where the weightings are steep
    pts = [.5 / osr * t for t in (.001, .003, .01, .03, .1, .3, 1.)]
    q = q0_ref(w, pts, order)
    Q = toeplitz(q)
    ntf = run(ntf_fir_audio_weighting, order, osr, hard=attn > 60, **kw)
    b = fir_form(ntf, order)
    a = np.array([1.])
    peak_ok(b, a, H_inf, 1e-4 * slack(c))
    got = np.sqrt(max(b @ Q @ b, 0))
    low = bound(Q, a, H_inf, np.linspace(0, .5, 8 * order + 9))
    if low is None:
        ctx.label('no bound')
        ctx.nontrivial(False)
        return
    scale = np.sqrt(np.linalg.eigvalsh(Q)[-1])
    ctx.nontrivial(order > 1 and response(low[1], a, np.linspace(
        0, .5, 999)).max() > H_inf * .999)
    require(got <= low[0] * (1 + 1e-3 * slack(c)) + 1e-5 * scale,
            'weighted noise is %r, %r is possible with %r', got, low[0],
            low[1])


related('C14', 'related', audio_cases, c14_audio,
        ['order', 'osr', 'w', 'band', 'attn', 'H_inf', 'norm', 'modeler'], 30,
        near=['osr', 'band', 'H_inf'], budget=60)


@subtest('C14', 'scs', lambda: with_scs(audio_cases).map(
    lambda c: dict(c, attn=30)), quick=60, budget=60,
         rule='order 2 or more with H_inf making a difference')
def c14_scs(c, ctx):
    """The other solver of the external CVXPY."""
    c14_audio(c, ctx)
