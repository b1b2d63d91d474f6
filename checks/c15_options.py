"""C15, C16: entry points and options."""
import contextlib
import copy
import io

import numpy as np

from ._common import (Caught, close, conj_roots, cplx, raises, require, snapshot, st, subtest)
from ._filters import as_form, filters, simple_weights, warg, wfun

from pydsm import NTFdesign as nd
from pydsm import correlations, delsig, ft, ir, relab, simulation, utilities
from pydsm.exceptions import (PyDsmDeprecationWarning)
from pydsm.NTFdesign import (filter_based as fb, helpers, legacy,
                             merit_factors, minmax, psychoacoustic as psy,
                             weighting as wt)
from pydsm.NTFdesign import delsig as nds


def same(a, b, what, tol=0.):
    """Nested results are the same."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        require(isinstance(a, tuple) and isinstance(b, tuple) and
                len(a) == len(b), '%s: %r instead of %r', what, a, b)
        for x, y in zip(a, b):
            same(x, y, what, tol)
        return
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        require(a == b if isinstance(a, str) else a is b,
                '%s: %r instead of %r', what, a, b)
        return
    if tol and np.ndim(a) == 1 and np.iscomplexobj(np.asarray(a)):
        # roots: compare the polynomials
        close(np.poly(a), np.poly(b), what, tol, tol)
        return
    close(a, b, what, tol, tol)


class Call(object):
    """What can be seen of a call."""

    def __init__(self, fun, counters=()):
        for k in counters:
            k.n = 0
        self.error = self.value = None
        out = io.StringIO()
        with Caught() as w, contextlib.redirect_stdout(out):
            try:
                self.value = fun()
            except Exception as e:
                self.error = e
        self.printed = bool(out.getvalue().strip())
        self.warned = w
        # What numpy and scipy warn about may hang on a rounding error
        self.kinds = sorted({x.category.__name__ for x in w.log
                             if x.category.__name__.startswith('PyDsm')} -
                            {'PyDsmDeprecationWarning'})
        self.calls = [k.n for k in counters]

    def like(self, other, what, tol=0., calls=True):
        a, b = self.error, other.error
        require(type(a) is type(b), '%s: %r instead of %r', what,
                a or self.value, b or other.value)
        if a is None:
            same(self.value, other.value, what, tol)
        require(self.printed == other.printed, '%s: printing is %s', what,
                self.printed)
        if calls:
            require(self.calls == other.calls, '%s: %s evaluations instead '
                    'of %s', what, self.calls, other.calls)


class Counter(object):
    """Function counting how many times it is evaluated."""

    def __init__(self, f):
        self.f, self.n = f, 0

    def __call__(self, *a, **k):
        self.n += 1
        return self.f(*a, **k)


# ------------------------------------------------------------------------ C15

def opt(draw, d):
    """A random leading part of the optional arguments: all the functions take
    the same arguments in the same order, positionally or by name."""
    items = list(d.items())
    n = draw(st.integers(0, len(items)))
    npos = draw(st.integers(0, n))
    names = draw(st.booleans())
    return {'pos': [v for _, v in items[:npos]],
            'kw': dict(items[npos:n] if names else items[npos:npos])}


@st.composite
def designs(draw):
    lp = draw(st.booleans())
    d = {'order': draw(st.integers(2, 5)) if lp else 2 * draw(
        st.integers(1, 3)), 'osr': draw(st.sampled_from([16, 32, 64])),
        'opt': draw(st.sampled_from([0, 1, 2])),
        'H_inf': draw(st.sampled_from([1.3, 1.5, 2.]))}
    if not lp:
        d['f0'] = draw(st.sampled_from([.125, .2, .25]))
    return opt(draw, d)


@st.composite
def clans_args(draw):
    return opt(draw, {'order': draw(st.integers(2, 4)),
                      'osr': draw(st.sampled_from([32, 64])),
                      'nq': draw(st.integers(3, 8)),
                      'rmax': draw(st.sampled_from([.9, .95])),
                      'opt': draw(st.integers(0, 2))})


@st.composite
def alias_cases(draw):
    which = draw(st.sampled_from(sorted(ALIASES)))
    return {'which': which, 'args': draw(ALIASES[which][0]())}


@st.composite
def fir_args(draw):
    n = draw(st.integers(2, 5))
    return {'order': n, 'w': draw(simple_weights(kinds=(
        'trig', 'bump', 'filter'))), 'H_inf': draw(st.sampled_from(
            [None, 1.5, 1.8])), 'norm': draw(st.sampled_from(
                ['default', None, 2.])), 'modeler': draw(st.sampled_from(
                    [None, 'cvxpy_old', 'picos'])),
            'q': [1.] + [draw(st.floats(-.1, .1)) for _ in range(n)]}


@st.composite
def filt_args(draw):
    typ = draw(st.sampled_from(['zpk', 'zpk', 'ba', 'imp', 'mag', None]))
    return {'H': draw(filters(nmax=3, rmax=.8)), 'type': typ,
            'ntf': draw(filters(nmax=3, rmax=.8)),
            'order': draw(st.integers(2, 5)),
            'P': draw(st.integers(0, 6)), 'H_inf': draw(st.sampled_from(
                [None, 1.5, 2.])), 'db': draw(st.sampled_from(
                    [None, 60, 120]))}


@st.composite
def gain_args(draw):
    d = {'w': draw(st.one_of(st.none(), simple_weights(kinds=(
        'trig', 'bump', 'filter')))),
        'ntf': draw(filters(nmax=3, rmax=.8)),
        'bounds': draw(st.sampled_from([None, [0, .1], [.1, .35]])),
        'avg': draw(st.sampled_from([None, None, True, False]))}
    return d


@st.composite
def audio_args(draw):
    return {'order': draw(st.integers(2, 5)), 'osr': draw(st.sampled_from(
        [2, 4, 8])), 'w': draw(st.sampled_from([None, 'a', 'f', 'c'])),
        'band': draw(st.sampled_from([None, 20e3])),
        'attn': draw(st.sampled_from([40, 50])),
        'H_inf': draw(st.sampled_from([None, 2.]))}


@st.composite
def dunn_args(draw):
    return opt(draw, {'order': draw(st.integers(1, 6)),
                      'osr': draw(st.sampled_from([32, 64])),
                      'H_inf': draw(st.sampled_from([1.5, 1.8]))})


@st.composite
def minmax_args(draw):
    # the default order is slow: always given
    d = {'order': draw(st.integers(2, 4)),
         'osr': draw(st.sampled_from([8, 16])),
         # a zero in the middle of the band is not possible for less
         'H_inf': draw(st.sampled_from([2.2, 3.])),
         'f0': draw(st.sampled_from([0, .25, .25])),
         'zf': draw(st.sampled_from([False, True, True]))}
    r = opt(draw, d)
    if d['zf'] and d['f0'] and draw(st.booleans()):
        # all together
        r = {'pos': [d[x] for x in ('order', 'osr', 'H_inf', 'f0', 'zf')],
             'kw': {}}
    if not r['pos'] and 'order' not in r['kw']:
        r['kw']['order'] = d['order']
    if 'order' in r['kw'] and r['kw'].get('zf') and d['f0'] and \
            d['order'] < 3:
        r['kw']['order'] = 3
    if r['pos'] and r['pos'][0] < 3:
        r['pos'][0] = 3
    return r


@st.composite
def sim_args(draw):
    return {'n': draw(st.integers(1, 20)), 'a': draw(st.floats(-.6, .6)),
            'k': draw(st.sampled_from([2, 3, 5])),
            'ntf': draw(st.integers(1, 3)),
            'backend': draw(st.sampled_from([None, 'scipy', 'scipy_blas']))}


@st.composite
def util_args(draw):
    return {'v': draw(st.floats(.001, 1e3)), 'type': draw(st.sampled_from(
        [None, 'power', 'voltage'])), 'R': draw(st.sampled_from(
            [None, 50., 2])), 'roots': draw(conj_roots(4, rmax=1.5)),
        'tol': draw(st.sampled_from([None, 1e-6])),
        'perturb': draw(st.sampled_from([0., 1e-10]))}


def plain(fun, ref):
    return lambda a: (lambda f: f(*a['pos'], **a['kw'])), fun, ref


def quiet(kw):
    return dict(kw, show_progress=False)


def call_minmax(a):
    return lambda f: f(*a['pos'], **quiet(a['kw']))


def call_fir(a):
    kw = {}
    if a['H_inf'] is not None:
        kw['H_inf'] = a['H_inf']
    if a['norm'] != 'default':
        kw['normalize'] = a['norm']
    if a['modeler']:
        kw['modeler'] = a['modeler']
    return lambda f: f(a['order'], warg(a['w']), **quiet(kw))


def call_q0(a):
    kw = {}
    if a['H_inf'] is not None:
        kw['H_inf'] = a['H_inf']
    if a['norm'] != 'default':
        kw['normalize'] = a['norm']
    return lambda f: f(np.array(a['q']), **quiet(kw))


def call_qw(a):
    return lambda f: f(a['order'], warg(a['w']))


def call_gain(a):
    kw = {}
    if a['w'] is not None:
        kw['w'] = warg(a['w'])
    if a['bounds']:
        kw['bounds'] = tuple(a['bounds'])
    if a['avg'] is not None:
        kw['avg'] = a['avg']
    return lambda f: f(as_form(a['ntf'], 'zpk'), **kw)


def call_audio(a):
    kw = {'max_attn': a['attn']}
    for k, n in (('w', 'audio_weighting'), ('band', 'audio_band'),
                 ('H_inf', 'H_inf')):
        if a[k] is not None:
            kw[n] = a[k]
    return lambda f: f(a['order'], a['osr'], **quiet(kw))


def call_sim(a):
    u = a['a'] * np.cos(np.arange(a['n']))
    ntf = (np.ones(a['ntf']), .3 * np.ones(a['ntf']), 1.)
    kw = {'backend': a['backend']} if a['backend'] else {}
    return lambda f: f(u, ntf, a['k'], **kw)


def call_quant(a):
    # As many rows as quantizers: anything else is out of the contract
    return lambda f: f(np.array([[a['a'] * 5], [1.], [-a['a']]]),
                       [a['k'], 2, a['k'] + 1])


def call_db(a):
    kw = {}
    if a['type']:
        kw['signal_type'] = a['type']
    if a['R']:
        kw['R'] = a['R']
    return lambda f: f(a['v'], **kw)


def call_pair(a):
    """With no tolerance, the alias keeps its own default."""
    z = cplx(a['roots'])
    z = z + a['perturb'] * np.arange(len(z)) if a['tol'] else z
    kw = {'tol': a['tol']} if a['tol'] else {}
    return lambda f: f(z, **kw)


def imp(h):
    return ir.impulse_response(h, 12)


def filt(a, square=False):
    """The filter as the deprecated functions take it and as a weighting."""
    h = a['H']
    t = a['type'] or 'zpk'
    if t == 'imp':
        r = imp(as_form(h, 'zpk'))
        return r, (r, [1])
    if t == 'mag':
        m = lambda f: np.sqrt(wfun({'kind': 'filter', 'filter': h})(f))
        return m, lambda f: m(f) ** 2
    return as_form(h, t), as_form(h, t)


def tkw(a, **kw):
    if a['type']:
        kw['H_type'] = a['type']
    return kw


def call_fb_gain(a):
    H, w = filt(a)
    n = as_form(a['ntf'], 'zpk')
    return lambda f: f(n, H, **tkw(a)) if f is fb.quantization_noise_gain \
        else f(n, w)


def call_fb_q0(a):
    H, w = filt(a)
    n = a['order']
    if a['type'] == 'imp':
        return lambda f: f(n, H, **tkw(a)) if f is fb.q0_from_filter \
            else legacy.q0_from_filter_ir(n, H)
    return lambda f: f(n, H, **tkw(a)) if f is fb.q0_from_filter else f(n, w)


def call_fb_conv(a):
    if a['type'] == 'mag':
        a = dict(a, type='ba')
    H, w = filt(a)
    n = as_form(a['ntf'], 'zpk')
    kw = {'db': a['db']} if a['db'] else {}
    return lambda f: f(n, H, **tkw(a, **kw))


def call_fb_synth(a):
    H, w = filt(a)
    kw = {'H_inf': a['H_inf']} if a['H_inf'] else {}
    return lambda f: f(a['order'], H, **quiet(tkw(a, **kw))) \
        if f is fb.synthesize_ntf_from_filter else f(a['order'], w,
                                                     **quiet(kw))


def call_plain(a):
    return lambda f: f(*a['pos'], **a['kw'])


# name: arguments, how to call, entry point, what it stands for, deprecated,
# tolerance
ALIASES = {
    'delsig.synthesizeNTF': (designs, call_plain, nds.synthesizeNTF,
                             delsig.synthesizeNTF, True, 0),
    'delsig.synthesizeChebyshevNTF': (
        designs, call_plain, nds.synthesizeChebyshevNTF,
        delsig.synthesizeChebyshevNTF, True, 0),
    'delsig.clans': (clans_args, call_plain, nds.clans, delsig.clans, True,
                     0),
    'ntf_schreier': (designs, call_plain, nd.ntf_schreier,
                     delsig.synthesizeNTF, False, 0),
    'ntf_chebyshev': (designs, call_plain, nd.ntf_chebyshev,
                      delsig.synthesizeChebyshevNTF, False, 0),
    'ntf_clans': (clans_args, call_plain, nd.ntf_clans, delsig.clans, False,
                  0),
    'delsig.ntf_schreier': (designs, call_plain, nds.ntf_schreier,
                            delsig.synthesizeNTF, False, 0),
    'delsig.ntf_chebyshev': (designs, call_plain, nds.ntf_chebyshev,
                             delsig.synthesizeChebyshevNTF, False, 0),
    'delsig.ntf_clans': (clans_args, call_plain, nds.ntf_clans, delsig.clans,
                         False, 0),
    'synthesize_ntf_dunn': (dunn_args, call_plain, psy.synthesize_ntf_dunn,
                            psy.ntf_dunn, True, 0),
    'ntf_dunn': (dunn_args, call_plain, nd.ntf_dunn, psy.ntf_dunn, False, 0),
    'synthesize_ntf_from_audio_weighting': (
        audio_args, call_audio, psy.synthesize_ntf_from_audio_weighting,
        psy.ntf_fir_audio_weighting, True, 1e-5),
    'ntf_fir_audio_weighting': (
        audio_args, call_audio, nd.ntf_fir_audio_weighting,
        psy.ntf_fir_audio_weighting, False, 1e-5),
    'q0_from_noise_weighting': (fir_args, call_qw, wt.q0_from_noise_weighting,
                                wt.q0_weighting, True, 0),
    'synthesize_ntf_from_q0': (fir_args, call_q0, wt.synthesize_ntf_from_q0,
                               wt.ntf_fir_from_q0, True, 1e-5),
    'synthesize_ntf_from_noise_weighting': (
        fir_args, call_fir, wt.synthesize_ntf_from_noise_weighting,
        wt.ntf_fir_weighting, True, 1e-5),
    'ntf_fir_weighting': (fir_args, call_fir, nd.ntf_fir_weighting,
                          wt.ntf_fir_weighting, False, 1e-5),
    'ntf_hybrid_weighting': (fir_args, call_fir, nd.ntf_hybrid_weighting,
                             wt.ntf_hybrid_weighting, False, 1e-5),
    'quantization_weighted_noise_gain': (
        gain_args, call_gain, wt.quantization_weighted_noise_gain,
        merit_factors.quantization_noise_gain, True, 0),
    'quantization_noise_gain': (gain_args, call_gain,
                                nd.quantization_noise_gain,
                                merit_factors.quantization_noise_gain, False,
                                0),
    'synthesize_ntf_minmax': (minmax_args, call_minmax,
                              minmax.synthesize_ntf_minmax,
                              minmax.ntf_fir_minmax, True, 1e-5),
    'ntf_fir_minmax': (minmax_args, call_minmax, nd.ntf_fir_minmax,
                       minmax.ntf_fir_minmax, False, 1e-5),
    'filter_based.quantization_noise_gain': (
        filt_args, call_fb_gain, fb.quantization_noise_gain,
        merit_factors.quantization_noise_gain, True, 1e-9),
    'filter_based.quantization_noise_gain_by_conv': (
        filt_args, call_fb_conv, fb.quantization_noise_gain_by_conv,
        legacy.quantization_noise_gain_by_conv, True, 0),
    'filter_based.q0_from_filter': (filt_args, call_fb_q0, fb.q0_from_filter,
                                    wt.q0_weighting, True, 1e-9),
    'filter_based.synthesize_ntf_from_filter': (
        filt_args, call_fb_synth, fb.synthesize_ntf_from_filter,
        wt.ntf_fir_weighting, True, 2e-2),
    'utilities.db': (util_args, call_db, utilities.db, relab.db, True, 0),
    'utilities.cplxpair': (util_args, call_pair, utilities.cplxpair,
                           relab.cplxpair, True, 0),
    'simulation.simulateDSM': (sim_args, call_sim, simulation.simulateDSM,
                               delsig.simulateDSM, False, 0),
    'simulation.ds_quantize': (sim_args, call_quant, simulation.ds_quantize,
                               delsig.ds_quantize, False, 0),
}
# designs whose results depend on the options
DEFAULTED = [nd.ntf_fir_weighting]


@subtest('C15', 'aliases', alias_cases, quick=600, thorough=10000, budget=90,
         rule='the function replacing it returns a result')
def c15_aliases(c, ctx):
    name = c['which']
    _, how, fun, ref, deprecated, tol = ALIASES[name]
    call = how(c['args'])
    if name.endswith('synthesize_ntf_from_filter') and \
            c['args']['type'] == 'imp':
        tol = 5e-2              # the moments come from the correlation
    a = Call(lambda: call(fun))
    b = Call(lambda: call(ref))
    ctx.label(name)
    ctx.nontrivial(b.error is None)
    a.like(b, name, tol)
    require(a.warned.has(PyDsmDeprecationWarning) == deprecated,
            '%s: deprecation warning is %s', name, not deprecated)
    require(a.kinds == b.kinds, '%s: warnings %s instead of %s', name,
            a.kinds, b.kinds)
    if deprecated:
        w = [x for x in a.warned.log if issubclass(
            x.category, PyDsmDeprecationWarning)]
        require(issubclass(w[0].category, DeprecationWarning),
                'not a DeprecationWarning')


# ------------------------------------------------------------------------ C16

def W():
    """A weighting that is hard enough for an integrator."""
    return Counter(lambda f: 1 + np.cos(20 * f) ** 2 + 3 * (f > .1234))


NTF3 = (np.ones(3), .5 * np.ones(3), 1.)
Q6 = np.array([1., .7, .3, .1, .05, .01])

quad = st.dictionaries(st.sampled_from(['epsabs', 'epsrel', 'limit',
                                        'points']), st.just(0), min_size=1)
QUAD = {'epsabs': [1e-3, 1e-14], 'epsrel': [1e-2, 1e-6], 'limit': [3, 50],
        'points': [[.1234], [.1, .3]]}
CVX = {'maxiters': [2, 3, 100], 'abstol': [1e-2, 1e-7],
       'reltol': [1e-1, 1e-6], 'feastol': [1e-2, 1e-6]}


def multi(table):
    @st.composite
    def gen(draw):
        ks = draw(st.lists(st.sampled_from(sorted(table)), min_size=1,
                           unique=True))
        return {k: draw(st.sampled_from(table[k])) for k in ks}
    return gen()


quad_opts = multi(QUAD)
cvxopt_opts = multi(CVX)
modelers = st.sampled_from(['cvxpy_old', 'picos', 'cvxpy', 'bogus'])
FIR = {'show_progress': st.booleans(), 'fix_pos': st.booleans(),
       'modeler': modelers, 'cvxopt_opts': cvxopt_opts}
FIRW = dict(FIR, quad_opts=quad_opts)

# function: options, call with a weighting
OPTS = {
    'simulateDSM': (delsig.simulateDSM, {'backend': st.sampled_from(
        ['auto', 'scipy', 'scipy_blas', 'bogus'])},
        lambda f, w, k: f(.3 * np.cos(np.arange(20.)), NTF3, **k)),
    'synthesizeNTF': (delsig.synthesizeNTF,
                      {'use_optimizer': st.booleans()},
                      lambda f, w, k: f(3, 8, 1, 4., **k)),
    'clans': (delsig.clans, {'show_progress': st.booleans(),
                             'slsqp_opts': multi({
                                 'maxiter': [1, 2, 100],
                                 'ftol': [1e-2, 1e-6],
                                 'eps': [1e-4, 1.4901161193847656e-08]})},
              lambda f, w, k: f(3, 32, 4, **k)),
    'idtft': (ft.idtft, {'quad_opts': quad_opts},
              lambda f, w, k: f(w, [1, 2], **k)),
    'idtft_hermitian': (ft.idtft_hermitian, {'quad_opts': quad_opts},
                        lambda f, w, k: f(w, 2, **k)),
    'q0_weighting': (wt.q0_weighting, {'quad_opts': quad_opts},
                     lambda f, w, k: f(3, w, **k)),
    'quantization_noise_gain': (
        merit_factors.quantization_noise_gain, {'quad_opts': quad_opts},
        lambda f, w, k: f(NTF3, w, **k)),
    'fb.quantization_noise_gain': (
        fb.quantization_noise_gain, {'quad_opts': quad_opts},
        lambda f, w, k: f(NTF3, w, 'mag', **k)),
    'fb.q0_from_filter': (fb.q0_from_filter, {'quad_opts': quad_opts},
                          lambda f, w, k: f(3, w, 'mag', **k)),
    'fb.synthesize_ntf_from_filter': (
        fb.synthesize_ntf_from_filter,
        {'quad_opts': quad_opts, 'cvxopt_opts': cvxopt_opts,
         'show_progress': st.booleans()},
        lambda f, w, k: f(3, w, 'mag', **k)),
    'ntf_fir_from_q0': (wt.ntf_fir_from_q0, FIR,
                        lambda f, w, k: f(Q6, 1.3, **k)),
    'ntf_fir_weighting': (wt.ntf_fir_weighting, FIRW,
                          lambda f, w, k: f(4, w, **k)),
    'ntf_hybrid_weighting': (wt.ntf_hybrid_weighting, FIRW,
                             lambda f, w, k: f(4, w, 1.5, [.5, .2], **k)),
    'ntf_fir_audio_weighting': (
        psy.ntf_fir_audio_weighting, FIRW,
        lambda f, w, k: f(4, 2, lambda x: w(x / 44.1e3), max_attn=30, **k)),
    'ntf_fir_minmax': (minmax.ntf_fir_minmax,
                       {k: v for k, v in FIR.items() if k != 'fix_pos'},
                       lambda f, w, k: f(4, 8, **k)),
    'spread_fir_uc_zeros': (
        helpers.spread_fir_uc_zeros,
        {'L_BFGS_B_opts': multi({'maxiter': [1, 3, 15000],
                                 'ftol': [1e-1, 2.220446049250313e-09],
                                 'maxfun': [4, 15000],
                                 'eps': [1e-4, 1e-8]})},
        lambda f, w, k: f(4, 8, lambda h: 1e-9 + np.sum(np.abs(
            np.angle(h[0]) - .1) ** 2) + w(0.), **k)),
}


@st.composite
def opt_cases(draw):
    name = draw(st.sampled_from(sorted(OPTS)))
    table = OPTS[name][1]
    ks = draw(st.lists(st.sampled_from(sorted(table)), min_size=1,
                       unique=True))
    o = {k: draw(table[k]) for k in ks}
    if o.get('modeler') == 'cvxpy' and 'cvxopt_opts' in o:
        o['cvxopt_opts'].pop('maxiters', None)   # SolverError
    how = {k: draw(st.booleans()) for k in ks}
    return {'fun': name, 'opts': o,
            'default': [k for k in ks if how[k]],
            'split': draw(st.booleans()),
            'inplace': draw(st.booleans())}


def set_defaults(d, o, inplace=False):
    for k, v in o.items():
        if isinstance(v, dict) and inplace:
            d[k].update(v)
        elif isinstance(v, dict):
            d[k] = dict(d[k], **v)
        else:
            d[k] = v


class Defaults:
    """Keep the default options of a function, with the dictionaries in it."""

    def __init__(self, d):
        self.d, self.inner = d, dict(d)
        self.saved = copy.deepcopy(d)

    def restore(self):
        self.d.clear()
        for k, v in self.saved.items():
            if isinstance(v, dict):
                self.inner[k].clear()
                self.inner[k].update(copy.deepcopy(v))
                self.d[k] = self.inner[k]
            else:
                self.d[k] = copy.deepcopy(v)


ALL = sorted({id(v[0]): v[0] for v in OPTS.values()}.values(),
             key=lambda f: f.__module__ + f.__name__)


def state(cvx=True):
    import cvxopt
    s = [np.geterr(), np.get_printoptions(), np.random.get_state()[1].tobytes(),
         [copy.deepcopy(f.default_options) for f in ALL],
         [x.tobytes() for x in NTF3[:2]], Q6.tobytes()]
    if cvx:
        s.append(dict(cvxopt.solvers.options))
    return s


@subtest('C16', 'defaults', opt_cases, quick=250, thorough=6000, budget=120,
         rule='the option makes a visible difference')
def c16_defaults(c, ctx):
    """An option in the call and the same as a default are the same."""
    fun, _, call = OPTS[c['fun']]
    o = c['opts']
    ctx.label(c['fun'])
    d = fun.default_options
    keep = Defaults(d)
    saved = keep.saved
    mine = c['fun'].startswith(('ntf_', 'fb.synth'))
    tol = 1e-4 if mine else 0.
    cvx = 'picos' not in str(o) and "'cvxpy'" not in str(o)
    base = {} if 'show_progress' in o or 'show_progress' not in saved else \
        {'show_progress': False}
    try:
        before = state(cvx)
        w = W()
        plain = Call(lambda: call(fun, w, dict(base)), [w])
        given = copy.deepcopy(dict(base, **o))
        ref = Call(lambda: call(fun, w, given), [w])
        require(given == dict(base, **o), 'the options are changed')
        now = state(cvx)
        for a, b in zip(before, now):
            require(a == b, 'the state is changed: %r after %r', b, a)
        ctx.nontrivial(
            ref.error is not None or ref.printed != plain.printed or
            ref.calls != plain.calls or not np.array_equal(
                np.hstack([np.ravel(x) for x in np.atleast_1d(
                    ref.value[0] if isinstance(ref.value, tuple) else
                    ref.value)]),
                np.hstack([np.ravel(x) for x in np.atleast_1d(
                    plain.value[0] if isinstance(plain.value, tuple) else
                    plain.value)])))
        # As defaults, all of them
        set_defaults(d, o, c['inplace'])
        mid = state(cvx)
        r = Call(lambda: call(fun, w, dict(base)), [w])
        r.like(ref, 'options %s as defaults' % o, tol)
        require(state(cvx) == mid, 'the defaults are changed by a call')
        keep.restore()
        # Some as defaults, other in the call, also within a dictionary
        inner, outer = {}, {}
        for i, (k, v) in enumerate(sorted(o.items())):
            if isinstance(v, dict) and c['split']:
                ks = sorted(v)
                outer[k] = {x: v[x] for x in ks[::2]}
                if ks[1::2]:
                    inner[k] = {x: v[x] for x in ks[1::2]}
            else:
                (inner if k in c['default'] else outer)[k] = v
        set_defaults(d, inner, c['inplace'])
        r = Call(lambda: call(fun, w, dict(base, **copy.deepcopy(outer))),
                 [w])
        r.like(ref, 'options %s as defaults and %s in the call' % (inner,
                                                                   outer),
               tol)
        keep.restore()
        # A default that is overridden does not matter
        known = {k: {x: y for x, y in v.items() if x in saved[k]}
                 if isinstance(v, dict) else v for k, v in o.items()}
        set_defaults(d, known, c['inplace'])
        over = dict(base, **{k: {x: saved[k][x] for x in v}
                             if isinstance(v, dict) else saved[k]
                             for k, v in known.items()})
        r = Call(lambda: call(fun, w, copy.deepcopy(over)), [w])
        if 'show_progress' not in over or \
                over['show_progress'] == base.get('show_progress',
                                                  saved.get('show_progress')):
            r.like(plain, 'overridden defaults', tol)
        keep.restore()
        r = Call(lambda: call(fun, w, dict(base)), [w])
        r.like(plain, 'call repeated', tol)
    finally:
        keep.restore()


@st.composite
def independent_cases(draw):
    i = draw(st.integers(0, len(ALL) - 1))
    d = ALL[i].default_options
    key = draw(st.sampled_from(sorted(d)))
    sub = draw(st.sampled_from(sorted(d[key]))) \
        if isinstance(d[key], dict) else None
    return {'fun': i, 'key': key, 'sub': sub}


@subtest('C16', 'independent', independent_cases, quick=300, thorough=2000,
         rule='an entry of a dictionary of options is changed')
def c16_independent(c, ctx):
    """Changing the defaults of a function leaves those of the others."""
    f = ALL[c['fun']]
    d = f.default_options
    ctx.nontrivial(c['sub'] is not None)
    ctx.label(f.__name__)
    keep = Defaults(d)
    before = [copy.deepcopy(g.default_options) for g in ALL]
    try:
        if c['sub'] is None:
            d[c['key']] = 'changed'
        else:
            d[c['key']][c['sub']] = 'changed'
        for g, b in zip(ALL, before):
            require(g is f or g.default_options == b, 'changing %s in the '
                    'default options of %s.%s changes those of %s.%s',
                    [c['key'], c['sub']], f.__module__, f.__name__,
                    g.__module__, g.__name__)
    finally:
        keep.restore()


@st.composite
def unknown_cases(draw):
    return {'fun': draw(st.sampled_from(sorted(OPTS))),
            'name': draw(st.sampled_from(['bogus', 'quadopts', 'Modeler',
                                          'show_progres', 'option']))}


@subtest('C16', 'unknown', unknown_cases, quick=150, thorough=500)
def c16_unknown(c, ctx):
    fun, _, call = OPTS[c['fun']]
    ctx.label(c['fun'])
    saved = copy.deepcopy(fun.default_options)
    kw = {c['name']: 1}
    if 'show_progress' in saved:
        kw['show_progress'] = False
    with Caught():
        raises(TypeError, lambda: call(fun, W(), kw),
               '%s with option %s' % (c['fun'], c['name']), c['name'])
    require(fun.default_options == saved, 'the defaults are changed')


# Arguments and history

def arr(rng, *s):
    return rng.uniform(-1, 1, s)


def cases_pure(rng):
    """Calls with arguments that can be changed by mistake."""
    ntf = (np.exp(1j * np.array([.1, -.1, 0])), np.array([.5, .3, .2]), 1.)
    H = (np.array([-1., -.5]), np.array([.2, .4]), 2.)
    ba = (np.array([1., .5]), np.array([1., -.4]))
    u = arr(rng, 30) * .5
    x = arr(rng, 8)
    q = np.array([1., .5, .2, .1])
    A = np.array([[1., 0, 1, -1], [1, 1, 0, -1], [0, 1, 0, 0]])
    z = np.exp(2j * np.pi * np.arange(5) / 5)
    n = int(rng.integers(2, 4))
    kw = {'quad_opts': {'limit': 80}}
    kf = {'show_progress': False, 'cvxopt_opts': {'maxiters': 50}}
    return {
        'simulateDSM ntf': (delsig.simulateDSM, (u, ntf, 3), {}),
        'simulateDSM ABCD': (delsig.simulateDSM,
                             (u, A, np.array([3]), np.array([.1, .2])), {}),
        'ds_quantize': (delsig.ds_quantize, (x * 3, np.array([2] * 8)), {}),
        'synthesizeNTF': (delsig.synthesizeNTF,
                          (3, 32, np.exp(1j * np.array([0, .05, -.05]))),
                          {}),
        'clans': (delsig.clans, (n, 32, 4),
                  {'slsqp_opts': {'maxiter': 20}}),
        'evalTF': (delsig.evalTF, (ntf, z), {}),
        'evalTF ba': (delsig.evalTF, (ba, z), {}),
        'rmsGain': (delsig.rmsGain, (ntf, 0, .1), {}),
        'rms': (delsig.rms, (x, True), {}),
        'dbv': (delsig.dbv, (x,), {}), 'dbp': (delsig.dbp, (x,), {}),
        'dbm': (delsig.dbm, (x,), {}), 'undbm': (delsig.undbm, (x,), {}),
        'undbv': (delsig.undbv, (x,), {}),
        'undbp': (delsig.undbp, (x,), {}),
        'padl': (delsig.padl, (x, 10), {}), 'padb': (delsig.padb, (A, 5), {}),
        'padr': (delsig.padr, (A, 6, 1.), {}),
        'padt': (delsig.padt, (x, 9), {}),
        'partitionABCD': (delsig.partitionABCD, (A, 2), {}),
        'axisLabels': (delsig.axisLabels, (x * 1e-6, [1, 2]), {}),
        'dsclansNTF': (delsig.dsclansNTF, (np.array([.5, .4, .6]), 3, .95,
                                           np.ones(3)), {}),
        'impulse_response': (ir.impulse_response, (H,), {}),
        'guess_ir_length': (ir.guess_ir_length, (ba,), {}),
        'raw_acorr': (correlations.raw_acorr, (x, 3), {}),
        'raw_xcorr': (correlations.raw_xcorr, (x, u, 3), {}),
        'fft_centered': (ft.fft_centered, (x,), {}),
        'dtft': (lambda v: ft.dtft(v)(.1), (x,), {}),
        'dtft_hermitian': (lambda v: ft.dtft_hermitian(v)(.1), (x,), {}),
        'idtft': (ft.idtft, (np.cos, np.array([1., 2])), kw),
        'cplxpair': (relab.cplxpair, (z[::-1].copy(),), {}),
        'shiftdim': (relab.shiftdim, (A, 1), {}),
        'eps': (relab.eps, (x,), {}), 'db': (relab.db, (x + 2,), {}),
        'chop': (utilities.chop, (x * 1e-14,), {}),
        'chop complex': (utilities.chop, (z * 1e-14,), {}),
        'mdot': (utilities.mdot, (A, A.T, A), {}),
        'q0_weighting': (wt.q0_weighting, (3, H), kw),
        'ntf_fir_from_q0': (wt.ntf_fir_from_q0, (q,), kf),
        'ntf_fir_weighting': (wt.ntf_fir_weighting, (n, H),
                              dict(kf, **kw)),
        'ntf_hybrid_weighting': (wt.ntf_hybrid_weighting,
                                 (3, H, 1.5, np.array([.3, .2])),
                                 dict(kf, **kw)),
        'ntf_hybrid_weighting picos': (
            wt.ntf_hybrid_weighting, (3, H, 1.5, [.3, .2]),
            dict(kf, modeler='picos', **kw)),
        'ntf_fir_from_q0 cvxpy': (
            wt.ntf_fir_from_q0, (q,),
            {'show_progress': False, 'modeler': 'cvxpy',
             'cvxpy_opts': {'override_kktsolver': False}}),
        'quantization_noise_gain': (merit_factors.quantization_noise_gain,
                                    (ntf, H, [0, .3]), kw),
        'by_conv': (legacy.quantization_noise_gain_by_conv, (ntf, H), {}),
        'minmax': (minmax.ntf_fir_minmax, (3, [8, 16], 1.5, [0, .25]), kf),
        'audio': (psy.ntf_fir_audio_weighting, (3, 4),
                  dict(kf, max_attn=30, **kw)),
        'ntf_dunn': (psy.ntf_dunn, (n, 32), {}),
    }


PURE = sorted(cases_pure(np.random.default_rng(0)))


@st.composite
def history_cases(draw):
    return {'seed': draw(st.integers(0, 5)),
            'calls': draw(st.lists(st.sampled_from(PURE), min_size=1,
                                   max_size=6)),
            'freeze': draw(st.booleans())}


def frozen(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, (tuple, list)):
        for v in x:
            frozen(v)


@subtest('C16', 'history', history_cases, quick=200, thorough=4000,
         budget=60, rule='more than one call')
def c16_history(c, ctx):
    """Results depend on arguments, not on the calls in between; arguments
    are left alone (they may be not writeable)."""
    args = cases_pure(np.random.default_rng(c['seed']))
    ctx.nontrivial(len(c['calls']) > 1)
    first = {}
    held = {}
    with Caught():
        for name in c['calls'] + c['calls'][::-1]:
            f, a, k = args[name]
            if c['freeze']:
                frozen(a)
            tol = 1e-4 if name.startswith(('ntf_', 'minmax', 'audio')) and \
                name != 'ntf_dunn' else 0.
            cvx = not name.endswith(('picos', 'cvxpy'))
            s, before = snapshot((a, k)), state(cvx)
            np.random.default_rng(c['seed'])
            r = f(*a, **k)
            require(snapshot((a, k)) == s, '%s changed its arguments', name)
            require(state(cvx) == before, '%s changed the state', name)
            if isinstance(r, list):
                r = tuple(r)
            if name in first:
                same(r, first[name], '%s repeated' % name, tol)
                require(snapshot(held[name]) == snapshot(copy.deepcopy(
                    first[name])), '%s: an earlier result changed', name)
            else:
                first[name] = copy.deepcopy(r)
                held[name] = r
