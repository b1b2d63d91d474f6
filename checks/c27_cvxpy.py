"""C27: expressions of the bundled CVXPY evaluate as linear algebra.

A case is a straight-line program: leaves (constants dense and sparse,
variables with structure, parameters) and operations that refer to earlier
results. It is run on the library and on numpy arrays at the same time.
"""
import numpy as np
from hypothesis import strategies as st

from ._common import Reject, dyadic, fail, raises, require, subtest

SC = ('cvxpy_scalar_var', 'cvxpy_scalar_param', 'cvxpy_tree', 'cvxpy_obj')
AR = ('cvxpy_var', 'cvxpy_param', 'cvxpy_array')


def lib():
    from pydsm import cvxpy_tdr
    return cvxpy_tdr


def kind(x):
    if np.isscalar(x):
        return 'num'
    n = type(x).__name__
    if n in SC:
        return 'sc'
    if n in AR:
        return 'arr'
    return {'cvxpy_matrix': 'mat', 'cvxpy_spmatrix': 'sp',
            'cvxpy_sparray': 'spa'}.get(n, n)


def value(x):
    """Value of a library object as a 2D array."""
    k = kind(x)
    if k == 'num':
        return np.array([[x]], dtype=float)
    if k == 'mat':
        return np.asarray(x, dtype=float)
    if k == 'sp':
        return x.toarray()
    v = x.value
    if k == 'sc':
        require(np.isscalar(v), 'value of a scalar object is a %s',
                type(v).__name__)
        return np.array([[v]], dtype=float)
    require(type(v).__name__ == {'arr': 'cvxpy_matrix',
                                 'spa': 'cvxpy_spmatrix'}[k],
            'value of %s is a %s', k, type(v).__name__)
    return v.toarray() if k == 'spa' else np.asarray(v, dtype=float)


# ------------------------------------------------------------------- leaves

LEAVES = ['num', 'mat', 'mat', 'sp', 'sp', 'var', 'var', 'var', 'par', 'par']
STRUCT = [None, None, None, 'symmetric', 'lower_triangular',
          'upper_triangular']
SHAPES = [[1, 1], [2, 1], [1, 2], [2, 2], [2, 2], [2, 3], [3, 2], [3, 1],
          [1, 3], [3, 3]]

# Almost, but not, what could be simplified
NEARLY = [1 + 2.**-22, -1 - 2.**-23, 2.**-24, -2.**-22, 2 + 2.**-21, 1000.,
          -4096.]


@st.composite
def leaf(draw):
    k = draw(st.sampled_from(LEAVES))
    m, n = draw(st.sampled_from(SHAPES))
    if k == 'num':
        m = n = 1
    vals = st.one_of(st.sampled_from([0., 0., 1., -1., 2.]),
                     dyadic(-4, 4, 8), st.sampled_from(NEARLY))
    v = [draw(vals) for _ in range(m * n)]
    out = {'k': k, 'm': m, 'n': n, 'v': v}
    if k in ('var', 'par'):
        # A second set of values
        out['w'] = [draw(vals) for _ in range(m * n)]
    if k == 'var' and m == n:
        out['s'] = draw(st.sampled_from(STRUCT))
    if k == 'par':
        out['a'] = draw(st.sampled_from([None, 'nonnegative',
                                         'nonpositive']))
    return out


def leafval(lf, which):
    a = np.array(lf[which if which in lf else 'v'], dtype=float).reshape(
        lf['m'], lf['n'])
    s = lf.get('s')
    if lf['m'] > 1:
        if s == 'symmetric':
            a = np.tril(a) + np.tril(a, -1).T
        elif s == 'lower_triangular':
            a = np.tril(a)
        elif s == 'upper_triangular':
            a = np.triu(a)
    if lf.get('a') == 'nonnegative':
        a = abs(a)
    elif lf.get('a') == 'nonpositive':
        a = -abs(a)
    return a


def make(cvx, lf, name):
    k, m, n = lf['k'], lf['m'], lf['n']
    if k == 'num':
        return float(lf['v'][0])
    if k == 'mat':
        return cvx.matrix(leafval(lf, 'v'))
    if k == 'sp':
        return cvx.spmatrix(leafval(lf, 'v'))
    if k == 'var':
        return cvx.variable(m, n, lf.get('s'), name)
    return cvx.parameter(m, n, lf.get('a'), name)


def assign(cvx, lf, obj, which):
    a = leafval(lf, which)
    if lf['k'] == 'par':
        obj.value = float(a[0, 0]) if a.shape == (1, 1) else cvx.matrix(a)
    elif lf['k'] == 'var':
        if a.shape == (1, 1):
            obj.value = float(a[0, 0])
        else:
            for i in range(lf['m']):
                for j in range(lf['n']):
                    if kind(obj[i, j]) == 'sc':
                        obj[i, j].value = float(a[i, j])


# --------------------------------------------------------------- operations

OPS = ['add', 'add', 'sub', 'sub', 'mul', 'mul', 'mul', 'neg', 'T', 'index',
       'slice', 'hstack', 'vstack', 'sum', 'sumlist', 'diag', 'trace',
       'reshape']
idx = st.integers(0, 30)


@st.composite
def program(draw):
    nl = draw(st.integers(2, 5))
    leaves = [draw(leaf()) for _ in range(nl)]
    ops = [[draw(st.sampled_from(OPS)), draw(idx), draw(idx), draw(idx)]
           for _ in range(draw(st.integers(1, 9)))]
    return {'leaves': leaves, 'ops': ops}


class Item(object):
    """A library object with its twin: one array per set of values, and the
    names of the variables it is made of."""

    def __init__(self, obj, vals, names):
        self.obj = obj
        self.vals = vals
        self.names = names
        self.kind = kind(obj)

    @property
    def shape(self):
        return self.vals[0].shape

    @property
    def hasvar(self):
        return bool(self.names[0])

    @property
    def symbolic(self):
        return self.kind in ('sc', 'arr', 'spa')


def both(f, *items):
    return [f(*[it.vals[i] for it in items]) for i in range(2)]


def union(*items):
    return [set().union(*[it.names[i] for it in items]) for i in range(2)]


SPARSE = ('sp', 'spa')
SCALAR = ('num', 'sc')


def addsub(op, a, b):
    f = (lambda x, y: x + y) if op == 'add' else (lambda x, y: x - y)
    if not (a.symbolic or b.symbolic):
        return None
    kinds = (a.kind, b.kind)
    if 'spa' in kinds or 'sp' in kinds:
        # Sparse objects can only be combined with dense arrays
        if 'arr' not in kinds:
            return None
    scalar = a.kind in SCALAR or b.kind in SCALAR
    if not scalar and a.shape != b.shape:
        raises(ValueError, lambda: f(a.obj, b.obj),
               '%s of %s and %s' % (op, a.shape, b.shape))
        return 'refused'
    return f(a.obj, b.obj), both(f, a, b), union(a, b)


def mul(a, b):
    if not (a.symbolic or b.symbolic):
        return None
    kinds = (a.kind, b.kind)
    scalar = a.kind in SCALAR or b.kind in SCALAR
    if 'spa' in kinds and 'arr' not in kinds:
        return None
    if 'sp' in kinds and not ('arr' in kinds or 'sc' in kinds):
        return None
    if scalar:
        f = lambda x, y: x * y      # noqa: E731
    else:
        if a.shape[1] != b.shape[0]:
            raises(ValueError, lambda: a.obj * b.obj,
                   'product of %s and %s' % (a.shape, b.shape))
            return 'refused'
        f = lambda x, y: x.dot(y)   # noqa: E731
    if a.hasvar and b.hasvar:
        # Only products that vanish can be accepted
        try:
            r = a.obj * b.obj
        except TypeError:
            return 'refused'
    else:
        r = a.obj * b.obj
    return r, both(f, a, b), union(a, b)


def fits(op, a, b):
    if not (a.symbolic or b.symbolic):
        return False
    kinds = (a.kind, b.kind)
    if op != 'mul':
        if ('sp' in kinds or 'spa' in kinds) and 'arr' not in kinds:
            return False
        return a.kind in SCALAR or b.kind in SCALAR or a.shape == b.shape
    if a.hasvar and b.hasvar:
        return False
    if 'spa' in kinds and 'arr' not in kinds:
        return False
    return a.kind in SCALAR or b.kind in SCALAR or a.shape[1] == b.shape[0]


def step(cvx, op, pool, i, j, k):
    """(object, values, names) or 'refused' or None if not applicable."""
    a = pool[i % len(pool)]
    b = pool[j % len(pool)]
    m, n = a.shape
    dense = a.kind in ('num', 'sc', 'mat', 'arr')
    if op in ('add', 'sub', 'mul') and k % 4:
        # Most often, the next operand that suits
        for d in range(len(pool)):
            b = pool[(j + d) % len(pool)]
            if fits(op, a, b):
                break
    if op in ('add', 'sub'):
        return addsub(op, a, b)
    if op == 'mul':
        return mul(a, b)
    if op == 'neg':
        if a.kind not in ('sc', 'arr'):
            return None
        return -a.obj, both(lambda x: -x, a), union(a)
    if op == 'T':
        if a.kind in ('num', 'mat', 'sp'):
            return None
        return a.obj.T, both(lambda x: x.T, a), union(a)
    if op == 'index':
        if a.kind not in ('arr', 'spa'):
            return None
        # Possibly out of range
        r, c = j % (m + 1), k % (n + 2) - 1
        if not (r < m and 0 <= c < n):
            raises(ValueError, lambda: a.obj[r, c],
                   'entry %d, %d of %s' % (r, c, a.shape))
            return 'refused'
        if (j + k) % 2:
            return (a.obj[np.int64(r), np.int64(c)],
                    both(lambda x: x[r:r + 1, c:c + 1], a), union(a))
        return a.obj[r, c], both(lambda x: x[r:r + 1, c:c + 1], a), union(a)
    if op == 'slice':
        if a.kind not in ('arr', 'spa'):
            return None
        r0, c0 = j % m, k % n
        r1 = r0 + 1 + (j // m) % (m - r0)
        c1 = c0 + 1 + (k // n) % (n - c0)
        st_ = 1 + (i + j + k) % 2
        rs = slice(r0 if r0 else None, None if r1 == m and k % 2 else r1,
                   st_ if st_ > 1 else None)
        cs = slice(c0, c1)
        if j % 7 == 6:
            raises(ValueError, lambda: a.obj[0:m + 1, cs],
                   'rows 0:%d of %s' % (m + 1, a.shape))
            return 'refused'
        if k % 5 == 4:
            # A mix of index and slice
            return a.obj[r0, cs], both(lambda x: x[r0:r0 + 1, cs], a), \
                union(a)
        return a.obj[rs, cs], both(lambda x: x[rs, cs], a), union(a)
    if op in ('hstack', 'vstack'):
        items = [a, b] if k % 3 else [a, b, pool[k % len(pool)]]
        fn = getattr(cvx, op)
        if any(it.kind in SPARSE for it in items):
            raises(TypeError, lambda: fn([it.obj for it in items]),
                   '%s of sparse objects' % op)
            return 'refused'
        ax = 0 if op == 'hstack' else 1
        seq = (list, tuple)[k % 2](it.obj for it in items)
        if len(set(it.shape[ax] for it in items)) > 1:
            raises(ValueError, lambda: fn(seq), '%s of %s' % (
                op, [it.shape for it in items]))
            return 'refused'
        return fn(seq), both(lambda *x: getattr(np, op)(x), *items), \
            union(*items)
    if op == 'sum':
        if not dense:
            return None
        return cvx.sum(a.obj), both(lambda x: np.array([[x.sum()]]), a), \
            union(a)
    if op == 'sumlist':
        items = [a, b, pool[k % len(pool)]]
        if any(it.kind in SPARSE or it.shape != a.shape for it in items):
            return None
        return cvx.sum([it.obj for it in items]), \
            both(lambda x, y, z: x + y + z, *items), union(*items)
    if not dense:
        return None
    if op == 'diag':
        if a.kind in SCALAR:
            return cvx.diag(a.obj), a.vals, a.names
        if m != 1 and n != 1:
            if m != n:
                raises(ValueError, lambda: cvx.diag(a.obj),
                       'diagonal of %s' % (a.shape,))
                return 'refused'
            return cvx.diag(a.obj), \
                both(lambda x: np.diag(x).reshape(-1, 1), a), union(a)
        return cvx.diag(a.obj), both(lambda x: np.diag(x.ravel()), a), \
            union(a)
    if op == 'trace':
        if m != n:
            raises(ValueError, lambda: cvx.trace(a.obj),
                   'trace of %s' % (a.shape,))
            return 'refused'
        return cvx.trace(a.obj), \
            both(lambda x: np.array([[np.trace(x)]]), a), union(a)
    if op == 'reshape':
        if a.kind in SCALAR:
            raises(TypeError, lambda: cvx.reshape(a.obj, (1, 1)),
                   'reshaping of a scalar')
            return 'refused'
        q = j % 7 + 1
        if (m * n) % q:
            raises(ValueError, lambda: cvx.reshape(a.obj, (q, n)),
                   'reshaping of %s into %s' % (a.shape, (q, n))) \
                if q * n != m * n else None
            return 'refused'
        sh = (q, m * n // q)
        return cvx.reshape(a.obj, sh), \
            both(lambda x: x.reshape(sh, order='F'), a), union(a)


class Names(object):
    """Stands for a leaf in the text of an expression."""

    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return self.a[k]


@subtest('C27', 'expression_program', program(), quick=2500, thorough=120000,
         rule='at least one symbolic result of an operation, not identically '
              'null', budget=40)
def expression_program(case, ctx):
    cvx = lib()
    leaves = case['leaves']
    pool, objs = [], []
    for i, lf in enumerate(leaves):
        o = make(cvx, lf, 'q%d' % i)
        objs.append(o)
        names = set()
        if lf['k'] == 'var':
            names = {i}
        pnames = {i} if lf['k'] == 'par' else set()
        pool.append(Item(o, [leafval(lf, 'v'), leafval(lf, 'w')],
                         [names, pnames]))
        if lf['k'] in ('var', 'par'):
            require(o.shape == (lf['m'], lf['n']), 'shape of %s: %s',
                    lf['k'], o.shape)
    nl = len(pool)
    for op, i, j, k in case['ops']:
        r = step(cvx, op, pool, i, j, k)
        if r is None:
            continue
        if r == 'refused':
            ctx.label('refused')
            continue
        it = Item(*r)
        if it.kind not in ('num', 'sc', 'arr', 'mat', 'sp', 'spa'):
            fail('%s gives a %s', op, it.kind)
        if it.kind in ('mat', 'arr', 'sp', 'spa'):
            require(tuple(it.obj.shape) == it.shape,
                    '%s: shape %s instead of %s', op, it.obj.shape,
                    it.shape)
        else:
            require(it.shape == (1, 1), '%s: scalar instead of shape %s',
                    op, it.shape)
        if not np.all(abs(it.vals[0]) < 1e9):
            raise Reject()
        ctx.label(op + ':' + it.kind)
        pool.append(it)
    # All the results, for the two sets of values in turn
    big = [max([1.] + [np.max(abs(it.vals[w])) for it in pool if
                       it.vals[w].size]) for w in (0, 1)]
    for w in (0, 1, 0):
        for lf, o in zip(leaves, objs):
            assign(cvx, lf, o, 'vw'[w])
        for pos, it in enumerate(pool):
            v = value(it.obj)
            x = it.vals[w]
            require(v.shape == x.shape, 'value %d: shape %s instead of %s',
                    pos, v.shape, x.shape)
            if not np.allclose(v, x, rtol=1e-9,
                               atol=1e-9 + 1e-13 * big[w]):
                fail('value %d (%s), set %d: got %s instead of %s', pos,
                     it.kind, w, v.tolist(), x.tolist())
    ctx.nontrivial(any(it.symbolic and it.vals[0].any()
                       for it in pool[nl:]))
    env = {'q%d' % i: (Names(leafval(lf, 'v')) if lf['m'] * lf['n'] > 1
                       else float(leafval(lf, 'v')[0, 0]))
           for i, lf in enumerate(leaves)}
    for pos, it in enumerate(pool):
        if it.kind != 'sc' and it.kind != 'arr':
            continue
        # Leaves that an expression is made of
        for what, used in (('variables', it.names[0]),
                           ('parameters', it.names[1])):
            got = set(int(x.name[1:].split('[')[0])
                      for x in getattr(it.obj, what))
            require(got <= used, '%s %s of value %d made of %s', what, got,
                    pos, used)
        if it.kind == 'sc' and pos >= nl:
            # Its text stands for it
            t = eval(str(it.obj).replace('np.float64', ''), {}, env)
            require(abs(t - it.vals[0][0, 0]) <=
                    1e-6 * (big[0] + abs(it.vals[0][0, 0])),
                    'text %r of value %d: %r instead of %r', str(it.obj),
                    pos, t, it.vals[0][0, 0])


@st.composite
def dep_case(draw):
    p = draw(program())
    p['bump'] = draw(idx)
    return p


@subtest('C27', 'dependence', dep_case(), quick=600, thorough=30000,
         rule='the variable changed alters some result', budget=20)
def dependence(case, ctx):
    """What an expression depends on is among its variables."""
    cvx = lib()
    leaves = case['leaves']
    which = [i for i, lf in enumerate(leaves) if lf['k'] in ('var', 'par')]
    if not which:
        raise Reject()
    b = which[case['bump'] % len(which)]
    import copy
    alt = copy.deepcopy(leaves)
    for i, lf in enumerate(alt):
        lf.pop('w', None)
    alt[b]['v'] = [x + .5 + i / 8. for i, x in enumerate(alt[b]['v'])]
    pools = []
    for ls in (leaves, alt):
        pool = [Item(make(cvx, lf, 'q%d' % i), [leafval(lf, 'v')] * 2,
                     [{i} if lf['k'] == 'var' else set(),
                      {i} if lf['k'] == 'par' else set()])
                for i, lf in enumerate(ls)]
        for op, i, j, k in case['ops']:
            r = step(cvx, op, pool, i, j, k)
            if r is None or r == 'refused':
                continue
            pool.append(Item(*r))
        pools.append(pool)
    require(len(pools[0]) == len(pools[1]), 'operations differ')
    hit = False
    what = 'variables' if leaves[b]['k'] == 'var' else 'parameters'
    for x, y in zip(*pools):
        if x.symbolic and not np.allclose(x.vals[0], y.vals[0]):
            hit = True
            got = set(int(q.name[1:].split('[')[0])
                      for q in getattr(x.obj, what))
            require(b in got, '%s lacks a leaf that the value depends on',
                    what)
    ctx.nontrivial(hit)


# ------------------------------------------------------------- constraints

@st.composite
def cmp_case(draw):
    p = draw(program())
    p['rel'] = draw(st.sampled_from(['equals', 'eq', 'less_equals', 'leq',
                                     'greater_equals', 'geq']))
    p['pair'] = [draw(idx), draw(idx)]
    return p


@subtest('C27', 'comparisons', cmp_case(), quick=800, thorough=40000,
         rule='the constraints relate symbolic expressions', budget=20)
def comparisons(case, ctx):
    """Constraints are elementwise, with scalars extended, and the entries
    of both sides evaluate as those of the expressions."""
    cvx = lib()
    leaves = case['leaves']
    objs = [make(cvx, lf, 'q%d' % i) for i, lf in enumerate(leaves)]
    pool = [Item(o, [leafval(lf, 'v'), leafval(lf, 'w')],
                 [{i} if lf['k'] == 'var' else set(), set()])
            for i, (o, lf) in enumerate(zip(objs, leaves))]
    for op, i, j, k in case['ops']:
        r = step(cvx, op, pool, i, j, k)
        if r is not None and r != 'refused':
            pool.append(Item(*r))
    for lf, o in zip(leaves, objs):
        assign(cvx, lf, o, 'v')
    a, b = [pool[-1 - i % len(pool)] for i in case['pair']]
    rel = getattr(cvx, case['rel'])
    sign = {'e': '==', 'l': '<=', 'g': '>='}[case['rel'][0]]
    if a.kind in SPARSE or b.kind in SPARSE:
        raises(TypeError, lambda: rel(a.obj, b.obj),
               'comparison of sparse objects')
        return
    scalar = a.kind in SCALAR or b.kind in SCALAR
    if not scalar and a.shape != b.shape:
        raises(ValueError, lambda: rel(a.obj, b.obj),
               'comparison of %s and %s' % (a.shape, b.shape))
        ctx.label('refused')
        return
    c = rel(a.obj, b.obj)
    if a.kind in SCALAR and b.kind in SCALAR:
        c = [c]
    x, y = np.broadcast_arrays(a.vals[0], b.vals[0])
    require(len(c) == x.size, '%d constraints instead of %d', len(c), x.size)
    for cc, l, r in zip(c, x.ravel(), y.ravel()):
        require(cc.type == sign, 'constraint %s instead of %s', cc.type,
                sign)
        require(abs(cc.left.value - l) <= 1e-9 * (1 + abs(l)) and
                abs(cc.right.value - r) <= 1e-9 * (1 + abs(r)),
                'constraint on %r, %r instead of %r, %r', cc.left.value,
                cc.right.value, l, r)
    ctx.nontrivial(a.symbolic or b.symbolic)
    ctx.label(case['rel'])


# ----------------------------------------------------- leaves and utilities

@st.composite
def leaf_case(draw):
    return {'m': draw(st.integers(1, 4)), 'n': draw(st.integers(1, 4)),
            'v': [draw(dyadic(-4, 4, 8)) for _ in range(16)],
            'seed': draw(st.integers(0, 10**6)),
            'a': draw(st.sampled_from([None, 'nonnegative', 'nonpositive'])),
            's': draw(st.sampled_from(STRUCT[3:]))}


@subtest('C27', 'leaves_and_constructors', leaf_case(), quick=300,
         thorough=10000, rule='all', budget=15)
def leaves_and_constructors(case, ctx):
    cvx = lib()
    m, n = case['m'], case['n']
    a = np.array(case['v'][:m * n]).reshape(m, n)
    ctx.nontrivial(True)
    # Matrices and sparse matrices keep what they are given
    for src in (a, a.tolist(), np.matrix(a)):
        v = cvx.matrix(src)
        require(kind(v) == 'mat' and np.array_equal(value(v), a),
                'matrix of %s', type(src).__name__)
        require(v.dtype == np.float64, 'matrix of %s', v.dtype)
    v = cvx.matrix(a.astype(int))
    require(np.array_equal(np.asarray(v * .5), a.astype(int) * .5),
            'matrix of integers')
    s = cvx.spmatrix(a)
    require(kind(s) == 'sp' and np.array_equal(s.toarray(), a), 'spmatrix')
    require(np.array_equal(s.T.toarray(), a.T), 'spmatrix transposed')
    s = cvx.spmatrix((m, n))
    s[m - 1, n - 1] = 2.5
    require(s.toarray()[m - 1, n - 1] == 2.5 and s.nnz == 1,
            'void spmatrix being filled')
    # Constructors
    for got, exp, what in ((cvx.eye(m), np.eye(m), 'eye'),
                           (cvx.zeros((m, n)), np.zeros((m, n)), 'zeros'),
                           (cvx.ones((m, n)), np.ones((m, n)), 'ones')):
        require(kind(got) == 'mat' and np.array_equal(value(got), exp),
                '%s(%d, %d)', what, m, n)
    cvx.seed(case['seed'])
    g, u = cvx.randn(m, n), cvx.rand(m, n)
    rs = np.random.RandomState(case['seed'])
    require(np.array_equal(value(g), rs.randn(m, n)) and
            np.array_equal(value(u), rs.rand(m, n)), 'randn, rand')
    q = a.dot(a.T) + np.eye(m)
    r = cvx.sqrtm(cvx.matrix(q))
    require(np.allclose(np.asarray(r * r), q, rtol=1e-8, atol=1e-8), 'sqrtm')
    if m == n:
        q = a + 10 * np.eye(m)
        require(np.allclose(np.asarray(cvx.matrix(q).I * cvx.matrix(q)),
                            np.eye(m), atol=1e-9), 'inverse')
        x = cvx.variable(m, m, case['s'], 'x')
        k = m * (m + 1) // 2 if m > 1 else 1
        require(len(x.variables) == k, '%s variable of size %d has %d '
                'entries', case['s'], m, len(x.variables))
    else:
        raises(ValueError, lambda: cvx.variable(m, n, case['s']),
               'structure %s of a non square variable' % case['s'])
    require(len(cvx.variable(m, n).variables) == m * n,
            'number of variables')
    if (m, n) != (1, 1):
        raises(ValueError, lambda: cvx.variable(m, n, 'hermitian'),
               'unknown structure')
    raises(ValueError, lambda: cvx.parameter(m, n, 'positive'),
           'unknown attribute')
    # Parameters
    p = cvx.parameter(m, n, case['a'])
    require(len(p.parameters) == m * n, 'number of parameters')
    require(np.all(np.isnan(value(p))), 'initial value of the parameters')
    bad = (case['a'] == 'nonnegative' and np.any(a < 0)) or \
        (case['a'] == 'nonpositive' and np.any(a > 0))
    new = float(a[0, 0]) if m == n == 1 else cvx.matrix(a)

    def setit():
        p.value = new
    if bad:
        raises(ValueError, setit, 'value against the %s attribute'
               % case['a'])
        return
    setit()
    require(np.array_equal(value(p), a), 'value of a parameter')
    if m * n > 1:
        def wrong(v):
            p.value = v
        raises(TypeError, lambda: wrong(a), 'ndarray value')
        raises(TypeError, lambda: wrong(1.), 'scalar value')
        raises(ValueError, lambda: wrong(cvx.zeros((m + 1, n))),
               'value of another shape')
        require(np.array_equal(value(p), a), 'value after the refusals')


# ------------------------------------------------------------ sparse objects

@st.composite
def sparse_case(draw):
    m, n, q = [draw(st.integers(1, 4)) for _ in range(3)]
    vals = st.one_of(st.just(0.), st.just(0.), dyadic(-4, 4, 8))
    return {'m': m, 'n': n, 'q': q,
            'S': [draw(vals) for _ in range(m * n)],
            'R': [draw(vals) for _ in range(m * n)],
            'X': [draw(dyadic(-4, 4, 8)) for _ in range(16)],
            'x': draw(dyadic(-4, 4, 8)), 'c': draw(dyadic(-4, 4, 8)),
            'par': draw(st.booleans()),
            'cut': [draw(st.integers(0, 3)) for _ in range(4)]}


@subtest('C27', 'sparse_objects', sparse_case(), quick=600, thorough=30000,
         rule='sparse matrix neither void nor full', budget=20)
def sparse_objects(case, ctx):
    """Sparse matrices and sparse arrays of expressions behave as the dense
    ones having the same entries."""
    cvx = lib()
    m, n, q = case['m'], case['n'], case['q']
    S = np.array(case['S']).reshape(m, n)
    R = np.array(case['R']).reshape(m, n)
    ctx.nontrivial(0 < np.count_nonzero(S) < S.size)
    sS, sR = cvx.spmatrix(S), cvx.spmatrix(R)
    # A scalar object: parameter, so that it can multiply variables
    x = cvx.parameter() if case['par'] else cvx.variable()
    x.value = case['x']
    e = case['c'] + 2 * x
    ev = case['c'] + 2 * case['x']

    def check(o, v, what):
        v = np.asarray(v)
        require(o.shape == v.shape if kind(o) != 'num' else v.size == 1,
                '%s: shape %s instead of %s', what,
                getattr(o, 'shape', ()), v.shape)
        require(np.allclose(value(o), v, rtol=1e-9, atol=1e-9),
                '%s: %s instead of %s', what, value(o).tolist(), v.tolist())

    for obj, val, what in ((x, case['x'], 'x'), (e, ev, 'c+2x')):
        for A in (obj * sS, sS * obj):
            require(kind(A) == 'spa', '%s times spmatrix is a %s', what,
                    kind(A))
            check(A, val * S, what + '*S')
            require(A.nnz == np.count_nonzero(S), 'nnz of %s*S: %d', what,
                    A.nnz)
            check(A.T, val * S.T, '(%s*S).T' % what)
    A, Av = e * sS, ev * S
    require(set(A.variables) == (set() if case['par'] or not S.any()
                                 else {x}), 'variables')
    require(set(A.parameters) == ({x} if case['par'] and S.any()
                                  else set()), 'parameters')
    r0, r1 = sorted([case['cut'][0] % m, case['cut'][1] % m])
    c0, c1 = sorted([case['cut'][2] % n, case['cut'][3] % n])
    check(A[r0, c0], Av[r0:r0 + 1, c0:c0 + 1], 'entry')
    check(A[r0:r1 + 1, c0:c1 + 1], Av[r0:r1 + 1, c0:c1 + 1], 'slice')
    check(A[:, c0], Av[:, c0:c0 + 1], 'column')
    check(A[r0, :], Av[r0:r0 + 1, :], 'row')
    # Entries being changed, added and removed
    B, Bv = e * sR, ev * R
    for i in range(m):
        for j in range(n):
            if (i + j) % 2:
                B[i, j] = A[i, j]
                Bv[i, j] = Av[i, j]
    check(B, Bv, 'sparse array being filled')
    require(B.nnz == sum(len(B.rows[i]) for i in range(m)), 'nnz after '
            'changing the entries')
    for bad in ((m, 0), (0, n), (-1, 0)):
        raises(ValueError, lambda: A[bad], 'entry %s of %s' % (bad, (m, n)))

        def put():
            A[bad] = 1.
        raises(ValueError, put, 'setting entry %s of %s' % (bad, (m, n)))
    # Together with dense arrays
    Y = cvx.parameter(m, n) if m * n > 1 else None
    if Y is not None:
        Yv = np.array(case['X'][:m * n]).reshape(m, n)
        Y.value = cvx.matrix(Yv)
        for s, sv, what in ((sS, S, 'S'), (A, Av, 'A')):
            check(Y + s, Yv + sv, 'Y+' + what)
            check(Y - s, Yv - sv, 'Y-' + what)
            if kind(s) == 'spa':
                check(s + Y, sv + Yv, what + '+Y')
                check(s - Y, sv - Yv, what + '-Y')
        check(sS + Y, S + Yv, 'S+Y')
        check(sS - Y, S - Yv, 'S-Y')
        raises(ValueError, lambda: Y + cvx.spmatrix((m + 1, n)),
               'sum of different shapes')
    Zv = np.array(case['X'][:n * q]).reshape(n, q)
    Wv = np.array(case['X'][:q * m]).reshape(q, m)
    if n * q > 1:
        Z = cvx.parameter(n, q)
        Z.value = cvx.matrix(Zv)
        check(sS * Z, S.dot(Zv), 'S*Z')
        check(A * Z, Av.dot(Zv), 'A*Z')
        raises(ValueError, lambda: cvx.spmatrix((m, n + 1)) * Z,
               'product of different sizes')
    if q * m > 1:
        W = cvx.parameter(q, m)
        W.value = cvx.matrix(Wv)
        check(W * sS, Wv.dot(S), 'W*S')
        check(W * A, Wv.dot(Av), 'W*A')
        raises(ValueError, lambda: W * cvx.spmatrix((m + 1, n)),
               'product of different sizes')


# ------------------------------------------------------------------- indexes

@st.composite
def key_part(draw, n):
    k = draw(st.sampled_from(['int', 'int', 'np', 'slice', 'slice', 'slice',
                              'down', 'bad', 'out']))
    if k in ('int', 'np'):
        return [k, draw(st.integers(0, n - 1))]
    if k == 'out':
        return draw(st.sampled_from([['int', -1], ['int', n], ['np', n + 2],
                                     ['slice', 0, n + 1, None],
                                     ['slice', -1, n, 1]]))
    if k == 'bad':
        return ['bad', draw(st.integers(0, 5))]
    a, b = sorted([draw(st.integers(0, n)), draw(st.integers(0, n))])
    if k == 'down':
        if n == 1:
            return ['int', 0]
        a, b = min(a, n - 2), max(b, 1)
        return ['slice', max(b - 1, a + 1), a, -draw(st.integers(1, 2))]
    if a == b:
        a, b = min(a, n - 1), min(a, n - 1) + 1
    return ['slice', None if a == 0 and draw(st.booleans()) else a,
            None if b == n and draw(st.booleans()) else b,
            draw(st.sampled_from([None, 1, 2, 3]))]


BAD = [1.5, 'a', None, [0], (0, 1), slice(0., 1.)]


def key_of(p, np_ok=True):
    if p[0] == 'slice':
        return slice(*p[1:])
    if p[0] == 'bad':
        return BAD[p[1]]
    return np.int64(p[1]) if p[0] == 'np' else p[1]


def key_list(p, n):
    """Indexes, or the exception expected."""
    if p[0] == 'bad':
        return TypeError
    if p[0] != 'slice':
        return [p[1]] if 0 <= p[1] < n else ValueError
    r = list(range(0 if p[1] is None else p[1], n if p[2] is None else p[2],
                   p[3] or 1))
    return r if all(0 <= i < n for i in r) else ValueError


@st.composite
def index_case(draw):
    m, n = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    if m * n == 1:
        n = 2
    return {'m': m, 'n': n, 'kind': draw(st.sampled_from(
        ['var', 'par', 'expr', 'sparse'])),
        'v': [draw(st.one_of(st.just(0.), dyadic(-4, 4, 8)))
              for _ in range(m * n)],
        's': [draw(st.sampled_from([0., 0., 1., -2., 3.]))
              for _ in range(m * n)],
        'keys': [[draw(key_part(m)), draw(key_part(n))] for _ in range(4)],
        'bad': draw(st.integers(0, 4)), 'put': draw(dyadic(-4, 4, 8))}


@subtest('C27', 'indexing', index_case(), quick=800, thorough=40000,
         rule='some slice with a step or through both axes', budget=20)
def indexing(case, ctx):
    """Entries and slices are those of the array of the values; keys that
    make no sense are refused."""
    cvx = lib()
    m, n = case['m'], case['n']
    V = np.array(case['v']).reshape(m, n)
    if case['kind'] == 'sparse':
        x = cvx.variable()
        x.value = 1.5
        V = np.array(case['s']).reshape(m, n)
        A = x * cvx.spmatrix(V)
        V = 1.5 * V
    elif case['kind'] == 'par':
        A = cvx.parameter(m, n)
        A.value = cvx.matrix(V)
    else:
        A = cvx.variable(m, n)
        for i in range(m):
            for j in range(n):
                A[i, j].value = float(V[i, j])
        if case['kind'] == 'expr':
            A, V = 2 * A - 1., 2 * V - 1
    for p, q in case['keys']:
        r, c = key_list(p, m), key_list(q, n)
        key = key_of(p), key_of(q)
        ctx.label('refused' if isinstance(r, type) or isinstance(c, type)
                  else 'taken')
        if r is TypeError or c is TypeError:
            raises(TypeError, lambda: A[key], 'key %r' % (key,))
        elif r is ValueError or c is ValueError:
            raises(ValueError, lambda: A[key], 'key %r' % (key,))
        else:
            o, exp = A[key], V[np.ix_(r, c)]
            if len(r) == len(c) == 1:
                require(kind(o) in ('sc', 'num'), 'entry %r is a %s', key,
                        kind(o))
            else:
                require(tuple(o.shape) == exp.shape, 'key %r: shape %s '
                        'instead of %s', key, o.shape, exp.shape)
                ctx.nontrivial(len(r) > 1 and len(c) > 1 or any(
                    t[0] == 'slice' and t[3] not in (None, 1) and len(l) > 1
                    for t, l in ((p, r), (q, c))))
            require(np.array_equal(value(o), exp), 'key %r: %s instead of %s',
                    key, value(o).tolist(), exp.tolist())
    for key in [(0, 0, 0), (0,), 0, slice(0, 1), [0, 0]][case['bad']:][:2]:
        raises(TypeError, lambda: A[key], 'key %r' % (key,))

        def put():
            A[key] = 1.
        raises(TypeError, put, 'setting with key %r' % (key,))
    # Setting
    p, q = case['keys'][0]
    r, c = key_list(p, m), key_list(q, n)

    def put2():
        A[key_of(p), key_of(q)] = case['put']
    if TypeError in (r, c) or 'slice' in (p[0], q[0]):
        raises(TypeError, put2, 'setting with key %r' % ([p, q],))
    elif ValueError in (r, c):
        raises(ValueError, put2, 'setting with key %r' % ([p, q],))
    else:
        B = A[0:m, 0:n]       # not to be changed
        put2()
        require(np.array_equal(value(B), V), 'a slice changes with the array')
        V = V.copy()
        V[r[0], c[0]] = case['put']
    require(np.array_equal(value(A), V), 'entry set: %s instead of %s',
            value(A).tolist(), V.tolist())
    # Text: that of the entries
    t = str(A)
    pos = 0
    for i in range(m):
        for j in range(n):
            if case['kind'] == 'sparse' and V[i, j] == 0:
                continue
            e = str(A[i, j])
            if case['kind'] == 'sparse':
                e = '(%d,%d)\t\t%s' % (i, j, e)
            k = t.find(e, pos)
            require(k >= 0, 'entry %r is not in %r', e, t)
            pos = k + len(e)


@st.composite
def spnum_case(draw):
    m, n, q = [draw(st.integers(1, 4)) for _ in range(3)]
    vals = st.one_of(st.just(0.), dyadic(-4, 4, 8))
    return {'m': m, 'n': n, 'q': q,
            'S': [draw(vals) for _ in range(m * n)],
            'R': [draw(vals) for _ in range(m * n)],
            'Q': [draw(vals) for _ in range(n * q)], 'c': draw(vals)}


@subtest('C27', 'numeric_matrices', spnum_case(), quick=300, thorough=10000,
         rule='sparse matrix neither void nor full', budget=15)
def numeric_matrices(case, ctx):
    """Dense and sparse matrices of numbers combine as those of scipy."""
    cvx = lib()
    m, n, q, k = case['m'], case['n'], case['q'], case['c']
    S, R = [np.array(case[x]).reshape(m, n) for x in 'SR']
    Q = np.array(case['Q']).reshape(n, q)
    ctx.nontrivial(0 < np.count_nonzero(S) < S.size)
    s, r, t = [cvx.spmatrix(x) for x in (S, R, Q)]
    ds, dr, dq = [cvx.matrix(x) for x in (S, R, Q)]

    def dense(x):
        return x.toarray() if hasattr(x, 'toarray') else np.asarray(x)
    for what, got, exp in (
            ('S+R', s + r, S + R), ('S-R', s - r, S - R),
            ('S*Q', s * t, S.dot(Q)), ('c*S', k * s, k * S),
            ('S*c', s * k, k * S), ('S*dense', s * dq, S.dot(Q)),
            ('S+dense', s + dr, S + R), ('S-dense', s - dr, S - R),
            ('dense+S', dr + s, S + R), ('dense-S', dr - s, R - S),
            ('dense*S', ds * t, S.dot(Q)),
            ('S.T', s.T, S.T), ('S.T*R', s.T * r, S.T.dot(R)),
            ('dense+dense', ds + dr, S + R), ('dense-dense', ds - dr, S - R),
            ('c-dense', k - ds, k - S), ('c+dense', k + ds, k + S),
            ('dense*dense', ds * dq, S.dot(Q)), ('c*dense', k * ds, k * S),
            ('dense*c', ds * k, k * S), ('dense.T', ds.T, S.T)):
        got = dense(got)
        require(got.shape == exp.shape and np.allclose(
            got, exp, rtol=1e-12, atol=1e-12), '%s: %s instead of %s', what,
            got.tolist(), exp.tolist())
    require(np.array_equal(s.toarray(), S) and np.array_equal(r.toarray(), R)
            and np.array_equal(np.asarray(ds), S), 'operands have changed')
