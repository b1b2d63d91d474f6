"""C29: the bundled CVXPY solves its programs to optimality."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import solve_discrete_lyapunov
from scipy.optimize import linprog, lsq_linear

from ._common import Reject, dyadic, raises, require, subtest
from ._dcp import ATOMS, Domain, atoms_in, build, evaluate, expr
from .c27_cvxpy import lib

TOL = 2e-5
LOUD = (ArithmeticError, ValueError, TypeError, OverflowError)


def col(x):
    return np.asarray(x.value, dtype=float).ravel()


class Vec(object):
    """A vector variable or parameter, always seen as an array."""

    def __init__(self, cvx, make, n):
        self.cvx, self.n, self.obj = cvx, n, make(n, 1)
        self.a = self.obj if n > 1 else cvx.vstack([self.obj])

    def set(self, v):
        self.obj.value = float(v[0]) if self.n == 1 else \
            self.cvx.matrix(v).T


def small(draw, m, n, lo=-3, hi=3, den=2):
    return [[draw(dyadic(lo, hi, den)) for _ in range(n)] for _ in range(m)]


class Given(Exception):
    """The solver gave up."""


def patient(progs, fun):
    """fun(), that raises Given if the solver gives up: this is allowed just
    before the end, as shown by a tolerance a little larger being met."""
    keep = [dict(p.options) for p in progs]
    try:
        for k in (1, 10, 100):
            for p, o in zip(progs, keep):
                p.options.update({t: o[t] * k for t in
                                  ('abstol', 'reltol', 'feastol')})
            try:
                return fun(), 1 if k == 1 else 10
            except Given:
                pass
        require(False, 'not solved')
    finally:
        for p, o in zip(progs, keep):
            p.options.update(o)


def solve(prog, quiet=True):
    """Value, and how much the tolerance is to be larger."""
    def fun():
        v, valid = prog.solve(quiet=quiet, return_status=True)
        if not valid:
            raise Given
        return v
    return patient([prog], fun)


# ----------------------------------------------------------- linear programs

@st.composite
def lp_case(draw):
    n = draw(st.integers(1, 4))
    m = draw(st.integers(1, 5))
    me = draw(st.integers(0, max(n - 2, 0)))
    kind = draw(st.sampled_from(['ok'] * 4 + ['infeasible', 'unbounded',
                                            'contradictory']))
    A = small(draw, m, n)
    hist = []
    for _ in range(draw(st.integers(1, 3))):
        hist.append({'x0': [draw(dyadic(-2, 2, 4)) for _ in range(n)],
                     'slack': [draw(st.sampled_from([0.25, .5, 1., 2.]))
                               for _ in range(m)],
                     'c': [draw(dyadic(-3, 3, 4)) for _ in range(n)]})
    return {'n': n, 'kind': kind, 'A': A, 'E': small(draw, me, n),
            'hist': hist, 'box': draw(st.sampled_from([3., 5.])),
            'form': draw(st.sampled_from(['matrix', 'rows'])),
            'side': [draw(st.integers(0, 3)) for _ in range(m)],
            'par': draw(st.booleans()), 'max': draw(st.booleans()),
            'dep': [draw(dyadic(-2, 2, 2)) for _ in range(me)]
            if draw(st.booleans()) else None,
            'eside': draw(st.integers(0, 1)), 'k0': draw(dyadic(-2, 2, 4))}


@subtest('C29', 'linear', lp_case(), quick=500, budget=40,
         rule='an inequality or equality is active at the optimum')
def linear(c, ctx):
    """Linear programs, with parameters, against scipy."""
    cvx = lib()
    n, A = c['n'], np.array(c['A'])
    m, E = len(A), np.array(c['E']).reshape(-1, n)
    if c['dep'] is not None and len(E):
        # A redundant, or contradictory, equality
        E = np.vstack((E, np.dot(c['dep'], E)))
    x = Vec(cvx, cvx.variable, n).a
    bp = Vec(cvx, cvx.parameter, m)
    cp = Vec(cvx, cvx.parameter, n)
    dp = Vec(cvx, cvx.parameter, max(len(E), 1))
    b, cc, d = bp.a, cp.a, dp.a
    prog = None
    for h in c['hist']:
        x0 = np.array(h['x0'])
        bv = A.dot(x0) + h['slack']
        dv = E.dot(x0)
        if c['kind'] == 'contradictory':
            if c['dep'] is None or not len(E):
                raise Reject
            dv[-1] += .5
        cv = np.array(h['c'])
        if prog is None or not c['par']:
            if not c['par']:
                b = cvx.matrix(bv).T
                cc = cvx.matrix(cv).T
                d = cvx.matrix(dv).T
            cons = []
            if c['form'] == 'matrix':
                lhs = cvx.matrix(A) * x
                cons.append([cvx.leq(lhs, b), cvx.geq(b, lhs),
                             cvx.leq(lhs - b, 0), cvx.geq(-lhs, -b)]
                            [c['side'][0]])
            else:
                for i in range(m):
                    e = sum([float(A[i, j]) * x[j, 0] for j in range(n)], 0)
                    if np.isscalar(e):      # empty row
                        e = 0 * x[0, 0]
                    bi = b[i, 0]
                    cons.append([cvx.leq(e, bi), cvx.geq(bi, e),
                                 cvx.leq(e - bi, 0), cvx.geq(-e, -bi)]
                                [c['side'][i]])
            for i in range(len(E)):
                e = cvx.matrix(E[i:i + 1]) * x
                cons.append(cvx.eq(e, d[i, 0]) if c['eside'] else
                            cvx.eq(d[i, 0], e))
            if c['kind'] != 'unbounded':
                cons.append(cvx.leq(x, c['box']))
            # (cvxopt needs feasible sets with no line)
            cons.append(cvx.geq(x, -c['box']))
            if c['kind'] == 'infeasible':
                # A direction cannot be both > 1 and < -1
                cons += [cvx.geq(cvx.sum(x), 1), cvx.leq(cvx.sum(x), -1)]
            obj = cc.T * x + c['k0']
            prog = cvx.program((cvx.maximize if c['max'] else cvx.minimize)
                               (obj), cons)
        if c['par']:
            bp.set(bv)
            cp.set(cv)
            dp.set(dv if len(E) else np.zeros(1))
        s = -1 if c['max'] else 1
        box = (-c['box'], None if c['kind'] == 'unbounded' else c['box'])
        A2, b2 = A, bv
        if c['kind'] == 'infeasible':
            A2 = np.vstack((A, -np.ones(n), np.ones(n)))
            b2 = np.concatenate((bv, [-1, -1]))
        ref = linprog(s * cv, A2, b2, E if len(E) else None,
                      dv if len(E) else None, [box] * n, method='highs')
        if ref.status == 4:
            raise Reject
        if c['kind'] == 'contradictory':
            require(ref.status == 2, 'the reference is wrong')
        status = {0: 'optimal', 2: 'infeasible', 3: 'unbounded'}[ref.status]
        if c['kind'] == 'unbounded' and status != 'unbounded':
            raise Reject        # possibly with variables left undetermined
        ctx.label(status)
        v, slack = solve(prog)
        if status == 'infeasible':
            require(v == s * np.inf, 'infeasible: the value is %r', v)
            continue
        if status == 'unbounded':
            require(v == -s * np.inf, 'unbounded: the value is %r', v)
            continue
        opt = s * ref.fun + c['k0']
        scale = 1 + abs(opt)
        tol = TOL * slack
        ctx.nontrivial(c['kind'] != 'ok' or np.any(
            A.dot(ref.x) > bv - 1e-7) or len(E))
        require(abs(v - opt) < tol * scale, 'value %r, optimum %r', v, opt)
        xv = col(x)
        require(np.max(A.dot(xv) - bv) < tol, 'inequalities violated by %r',
                np.max(A.dot(xv) - bv))
        if len(E):
            require(np.max(np.abs(E.dot(xv) - dv)) < tol,
                    'equalities violated')
        if c['kind'] == 'ok':
            require(np.max(np.abs(xv)) < c['box'] + tol, 'bounds violated')
        require(abs(cv.dot(xv) + c['k0'] - v) < tol * scale,
                'the variables give %r, the value is %r',
                cv.dot(xv) + c['k0'], v)


# --------------------------------------------------------- quadratic programs

@st.composite
def qp_case(draw):
    n = draw(st.integers(1, 3))
    m = draw(st.integers(n, 5))
    return {'A': small(draw, m, n),
            'b': [[draw(dyadic(-4, 4, 4)) for _ in range(m)]
                  for _ in range(draw(st.integers(1, 2)))],
            'box': draw(st.sampled_from([[-1., 1.], [0., 2.], [-9., 9.],
                                         [.5, .75]])),
            'par': draw(st.booleans()),
            'form': draw(st.sampled_from(['norm2', 'square', 'quad_form',
                                          'quad_over_lin', 'soc', 'epi',
                                          'norm_formal']))}


@subtest('C29', 'least_squares', qp_case(), quick=350, budget=40,
         rule='residual not null')
def least_squares(c, ctx):
    """Bounded least squares in a few disguises, against scipy."""
    cvx = lib()
    A = np.array(c['A'])
    m, n = A.shape
    x = Vec(cvx, cvx.variable, n).a
    bp = Vec(cvx, cvx.parameter, m)
    lo, hi = c['box']
    prog = None
    for bv in np.array(c['b']):
        if c['form'] == 'quad_form':
            if np.linalg.matrix_rank(A) < n:
                raise Reject
        if prog is None or not c['par'] or c['form'] == 'quad_form':
            b = bp.a if c['par'] else cvx.matrix(bv).T
            r = cvx.matrix(A) * x - b
            cons = [cvx.geq(x, lo), cvx.leq(x, hi)]
            if c['form'] == 'norm2':
                obj = cvx.norm2(r)
            elif c['form'] == 'square':
                obj = cvx.sum(cvx.square(r))
            elif c['form'] == 'quad_form':
                q = cvx.matrix(-2 * A.T.dot(bv)).T
                obj = cvx.quad_form(x, cvx.matrix(A.T.dot(A))) + q.T * x + \
                    float(bv.dot(bv))
            elif c['form'] == 'quad_over_lin':
                obj = cvx.quad_over_lin(r, 2.)
            elif c['form'] == 'soc':
                t = cvx.variable()
                obj = t
                cons += [cvx.belongs(cvx.vstack((r, t)),
                                     cvx.second_order_cone)]
            elif c['form'] == 'epi':
                t = cvx.variable()
                obj = t
                cons += [cvx.geq(t, cvx.norm2(r))]
            else:
                t, z = cvx.variable(), Vec(cvx, cvx.variable, m)
                obj = cvx.program(cvx.minimize(t), [cvx.belongs(
                    cvx.vstack((z.a, t)), cvx.second_order_cone)],
                    [z.obj])(r)
            prog = cvx.program(cvx.minimize(obj), cons)
        bp.set(bv)
        ref = lsq_linear(A, bv, (lo, hi), tol=1e-12, method='bvls')
        rs = 2 * ref.cost
        opt = {'square': rs, 'quad_form': rs,
               'quad_over_lin': rs / 2}.get(c['form'], np.sqrt(rs))
        ctx.nontrivial(rs > 1e-3)
        v, slack = solve(prog)
        tol = 5e-5 * (1 + abs(opt)) * slack
        if opt < 1e-3:
            tol *= 10
        require(abs(v - opt) < tol, 'value %r, optimum %r', v, opt)
        xv = col(x)
        require(np.all(xv > lo - 1e-4) and np.all(xv < hi + 1e-4),
                'bounds violated: %r', xv)
        got = np.sum((A.dot(xv) - bv)**2)
        require(abs(np.sqrt(got) - np.sqrt(rs)) < 2e-3 * (1 + np.sqrt(rs)),
                'the variables give the square error %r, the best is %r',
                got, rs)


# ----------------------------------------------------- semidefinite programs

@st.composite
def sdp_case(draw):
    n = draw(st.integers(2, 3))
    fam = draw(st.sampled_from(['trace_min', 'eig_sum', 'lyapunov', 'schur',
                                'band', 'slack', 'symmetric_shift',
                                'infeasible', 'unbounded']))
    return {'n': n, 'fam': fam, 'A': small(draw, n, n, -2, 2, 4),
            'Q': small(draw, n, n, -2, 2, 2),
            'k': draw(st.integers(1, n))}


@subtest('C29', 'semidefinite', sdp_case(), quick=250, budget=40,
         rule='off diagonal elements in the data')
def semidefinite(c, ctx):
    """Semidefinite programs whose optimum is known in closed form."""
    cvx = lib()
    n, fam, k = c['n'], c['fam'], c['k']
    A = np.array(c['A'])
    S = A + A.T
    Q = np.array(c['Q'])
    Q = Q.dot(Q.T) + .25 * np.eye(n)
    ctx.nontrivial(np.any(S - np.diag(np.diag(S))))
    ctx.label(fam)
    w = np.linalg.eigvalsh(S)
    psd = cvx.semidefinite_cone
    X = cvx.variable(n, n, 'symmetric', name='X')
    Sc = cvx.matrix(S)
    act, vars_ = cvx.minimize, None
    if fam == 'trace_min':
        # Smallest eigenvalue, dual form
        obj = cvx.trace(Sc * X)
        cons = [cvx.belongs(X, psd), cvx.eq(cvx.trace(X), 1)]
        opt = w[0]
        feas = [lambda x: np.linalg.eigvalsh(x)[0],
                lambda x: -abs(np.trace(x) - 1)]
        val = lambda x: np.trace(S.dot(x))
    elif fam == 'eig_sum':
        # Ky Fan: sum of the k largest eigenvalues
        act = cvx.maximize
        obj = cvx.trace(Sc * X)
        cons = [cvx.belongs(X, psd), cvx.belongs(cvx.eye(n) - X, psd),
                cvx.eq(cvx.trace(X), k)]
        opt = np.sum(w[n - k:])
        feas = [lambda x: np.linalg.eigvalsh(x)[0],
                lambda x: 1 - np.linalg.eigvalsh(x)[-1],
                lambda x: -abs(np.trace(x) - k)]
        val = lambda x: np.trace(S.dot(x))
    elif fam == 'lyapunov':
        # Gramian as the smallest solution of the Lyapunov inequality
        rho = np.max(np.abs(np.linalg.eigvals(A)))
        F = A if rho < .9 else A * .8 / rho
        P = solve_discrete_lyapunov(F, Q)
        if np.trace(P) > 200:
            raise Reject
        Fc = cvx.matrix(F)
        obj = cvx.trace(X)
        cons = [cvx.belongs(X - Fc * X * Fc.T - cvx.matrix(Q), psd)]
        opt = np.trace(P)
        feas = [lambda x: np.linalg.eigvalsh(x - F.dot(x).dot(F.T) - Q)[0]]
        val = np.trace
    elif fam == 'schur':
        # v'Q^-1 v by the Schur complement
        v = A[0]
        t = cvx.variable()
        obj = t
        vc = cvx.matrix(v).T
        cons = [cvx.belongs(cvx.vstack((cvx.hstack((cvx.matrix(Q), vc)),
                                        cvx.hstack((vc.T, t)))), psd)]
        opt = v.dot(np.linalg.solve(Q, v))
        feas, val, vars_ = [], None, t
    elif fam == 'band':
        # Spectral radius of a symmetric matrix
        t = cvx.variable()
        obj = t
        cons = [cvx.belongs(t * cvx.eye(n) - Sc, psd),
                cvx.belongs(Sc + t * cvx.eye(n), psd)]
        opt = np.max(np.abs(w))
        feas, val, vars_ = [], None, t
    elif fam == 'slack':
        # Distance of S from the cone: sum of the negative eigenvalues
        obj = cvx.trace(X)
        cons = [cvx.belongs(X, psd), cvx.belongs(X + Sc, psd)]
        opt = -np.sum(np.minimum(w, 0))
        feas = [lambda x: np.linalg.eigvalsh(x)[0],
                lambda x: np.linalg.eigvalsh(x + S)[0]]
        val = np.trace
    elif fam == 'symmetric_shift':
        # X >= S, X >= 0, least largest eigenvalue, with the atoms
        obj = cvx.lambda_max(X)
        cons = [cvx.geq(cvx.lambda_min(X - Sc), 0),
                cvx.geq(X[0, 0], w[-1] + 1)]
        opt = w[-1] + 1
        feas = [lambda x: np.linalg.eigvalsh(x - S)[0]]
        val = lambda x: np.linalg.eigvalsh(x)[-1]
    elif fam == 'infeasible':
        obj = cvx.trace(X)
        cons = [cvx.belongs(X, psd), cvx.leq(cvx.trace(X), -1)]
        opt = np.inf
    else:
        obj = -cvx.trace(X)
        cons = [cvx.belongs(X + Sc, psd)]
        opt = -np.inf
    if fam in ('trace_min', 'eig_sum') and k % 2:
        # The opposite is as good
        act = cvx.minimize if act is cvx.maximize else cvx.maximize
        obj, opt = -obj, -opt
        val = (lambda f: lambda x: -f(x))(val)
    prog = cvx.program(act(obj), cons)
    v, slack = solve(prog)
    if np.isinf(opt):
        require(v == opt, 'value %r instead of %r', v, opt)
        return
    tol = 5e-5 * (1 + abs(opt)) * slack
    require(abs(v - opt) < tol, 'value %r, optimum %r', v, opt)
    if vars_ is not None:
        require(abs(vars_.value - v) < 1e-9 * (1 + abs(v)),
                'variable %r, value %r', vars_.value, v)
        return
    x = np.asarray(X.value, dtype=float)
    require(np.array_equal(x, x.T), 'the symmetric variable is not such')
    for f in feas:
        require(f(x) > -tol, 'constraint violated by %r', -f(x))
    require(abs(val(x) - v) < tol, 'the variables give %r, the value is %r',
            val(x), v)


# ------------------------------------------------------------ random programs

NO_REF = ('log_norm_cdf', 'det_rootn')


def translate(cp, node, x, p, extra):
    """Expression for the (independent) recent CVXPY; constraints are
    appended to extra."""
    t = node[0]
    if t == 'v':
        return x[node[1] % 3]
    if t == 'c':
        return cp.Constant(node[1])
    if t == 'p':
        return cp.Constant(p[node[1] % len(p)])
    if t == 'n':
        return -translate(cp, node[1], x, p, extra)
    if t in '+-*':
        a, b = [translate(cp, y, x, p, extra) for y in node[1:3]]
        return a + b if t == '+' else a - b if t == '-' else a * b
    name, k = node[1], node[3]
    a = [translate(cp, y, x, p, extra) for y in node[2]]
    one = a[0]
    if name == 'power_p':
        extra.append(one >= 0)
        return cp.power(cp.pos(one), k)
    if name == 'power_abs':
        return cp.power(cp.abs(one), k)
    if name == 'power_pos':
        return cp.power(cp.pos(one), k)
    if name in ('abs', 'exp', 'log', 'sqrt', 'square'):
        return getattr(cp, name)(one)
    if name == 'huber':
        return cp.huber(one, k)
    if name in ('max', 'max3'):
        return cp.maximum(*a)
    if name in ('min', 'min3'):
        return cp.minimum(*a)
    if name in ('norm1', 'norm_infr'):
        return cp.norm1(cp.hstack(a))
    if name in ('norm_inf', 'norm1r'):
        return cp.norm_inf(cp.hstack(a))
    if name == 'norm2':
        return cp.norm2(cp.hstack(a))
    if name in ('norm2m', 'nuclear_norm'):
        m = cp.bmat([[a[0], a[1]], [a[2], a[3]]])
        return cp.sigma_max(m) if name == 'norm2m' else cp.normNuc(m)
    if name in ('geo_mean', 'geo_mean3'):
        return cp.geo_mean(cp.hstack(a))
    if name == 'log_sum_exp':
        return cp.log_sum_exp(cp.hstack(a))
    if name == 'quad_form':
        return cp.quad_form(cp.hstack(a), np.reshape(k, (2, 2)))
    if name == 'quad_over_lin':
        return cp.quad_over_lin(cp.hstack(a[:2]), a[2])
    if name == 'kl_div':
        return cp.kl_div(a[0], a[1])
    if name in ('lambda_max', 'lambda_min'):
        return getattr(cp, name)(cp.bmat([[a[0], a[1]], [a[1], a[2]]]))
    if name == 'u_pos':
        return cp.pos(one)
    if name == 'u_cap':
        return cp.minimum(one, 1)
    if name == 'u_dist':
        return cp.abs(a[0] - a[1])
    if name == 'u_env':
        return cp.huber(one, .5)
    raise KeyError(name)


PAIRS = ['nonnegative', 'nonpositive', None]


@st.composite
def dcp_case(draw):
    conic = draw(st.booleans())
    names = [a for a in ATOMS if a not in NO_REF and
             not (conic and ATOMS[a][3])]
    if not conic:
        names += [a for a in names if ATOMS[a][3]] * 4
    act = draw(st.sampled_from(['minimize', 'maximize']))
    x, v = ('x', 'v') if act == 'minimize' else ('v', 'x')
    obj = expr(draw, x, draw(st.integers(1, 3)), 3, 0, names)
    cons = []
    for _ in range(draw(st.integers(0, 2))):
        rel = draw(st.sampled_from(['leq', 'geq', 'leq', 'geq', 'eq']))
        d = draw(st.integers(0, 2))
        if rel == 'leq':
            e = [expr(draw, 'x', d, 3, 0, names),
                 expr(draw, 'v', 0, 3, 0, names)]
        elif rel == 'geq':
            e = [expr(draw, 'v', d, 3, 0, names),
                 expr(draw, 'x', 0, 3, 0, names)]
        else:
            e = [expr(draw, 'a', 1, 3), expr(draw, 'a', 0, 3)]
        cons.append([rel] + e)
    ps = [[draw(st.sampled_from([.25, .5, 1., 2.])),
           -draw(st.sampled_from([.25, .5, 1., 2.])),
           draw(st.sampled_from([-1.5, -.5, .5, 1., 2.]))]
          for _ in range(draw(st.integers(1, 2)))]
    return {'act': act, 'obj': obj, 'cons': cons, 'ps': ps,
            'x0': [draw(dyadic(-1, 2, 4)) for _ in range(3)]}


def reference(case, pv):
    """Status and optimum by the recent CVXPY."""
    import cvxpy as cp
    x = cp.Variable(3)
    cons = [x >= -3, x <= 3]
    obj = translate(cp, case['obj'], x, pv, cons)
    for rel, a, b, k in case['cons']:
        a, b = [translate(cp, e, x, pv, cons) for e in (a, b)]
        cons.append(a <= b + k if rel == 'leq' else
                    a + k >= b if rel == 'geq' else a == b + k)
    prob = cp.Problem((cp.Minimize if case['act'] == 'minimize' else
                       cp.Maximize)(obj), cons)
    try:
        prob.solve(solver='CLARABEL')
    except (cp.SolverError, ValueError):
        return 'failed', None
    return prob.status, prob.value


@subtest('C29', 'random_programs', dcp_case(), quick=420, thorough=15000,
         rule='a function atom in an optimal program', budget=80)
def random_programs(case, ctx):
    """Random compositions of the atoms, against the recent CVXPY."""
    cvx = lib()
    x = cvx.variable(3, 1, name='x')
    xs = [x[i, 0] for i in range(3)]
    ps = [cvx.parameter(1, 1, a, 'p%d' % i) for i, a in enumerate(PAIRS)]
    atoms = atoms_in(case['obj'])
    for c in case['cons']:
        for e in c[1:3]:
            atoms |= atoms_in(e)
    nonlinear = any(ATOMS[a][3] for a in atoms)
    rough = any(a in ('sqrt', 'geo_mean', 'geo_mean3') for a in atoms)
    # Make the constraints feasible at x0, with the first parameters: what
    # they lack is added as a constant
    case = dict(case)
    cons = []
    for rel, a, b in case['cons']:
        try:
            with np.errstate(all='ignore'):
                va, vb = [evaluate(e, case['x0'], case['ps'][0])
                          for e in (a, b)]
        except Domain:
            raise Reject
        if not abs(va - vb) < 1e3:
            raise Reject
        k = va - vb if rel == 'eq' else \
            max(va - vb if rel == 'leq' else vb - va, -1) + 1
        cons.append([rel, a, b, round(float(k) * 8) / 8 if rel != 'eq'
                     else float(k)])
        if rel == 'eq' and len(set(var_of(a)) | set(var_of(b))) == 0:
            raise Reject
    if sum(c[0] == 'eq' for c in cons) > 1:
        raise Reject
    case['cons'] = cons
    obj = build(cvx, case['obj'], xs, ps)
    kc = [cvx.leq(x, 3), cvx.geq(x, -3)]
    for rel, a, b, k in cons:
        a, b = build(cvx, a, xs, ps), build(cvx, b, xs, ps)
        kc.append(cvx.leq(a, b + k) if rel == 'leq' else
                  cvx.geq(a + k, b) if rel == 'geq' else cvx.eq(a, b + k))
    prog = cvx.program(getattr(cvx, case['act'])(obj), kc)
    for pv in case['ps']:
        for p, v in zip(ps, pv):
            p.value = v
        status, opt = reference(case, pv)
        if status not in ('optimal', 'infeasible'):
            raise Reject
        if status == 'optimal' and not abs(opt) < 1e3:
            raise Reject
        try:
            v, valid = prog.solve(quiet=True, return_status=True)
        except LOUD:
            # cvxopt gives up aloud in difficult cases
            ctx.label('solver failure')
            raise Reject
        if not valid:
            ctx.label('not solved')
            ctx.nontrivial(False)
            continue
        ctx.label(status + (' non linear' if nonlinear else ' conic'))
        sign = 1 if case['act'] == 'minimize' else -1
        if status == 'infeasible':
            ctx.nontrivial(False)
            require(v == sign * np.inf, 'infeasible program with value %r', v)
            continue
        ctx.nontrivial(bool(atoms))
        tol = (3e-3 if rough else 2e-4) * (1 + abs(opt))
        require(abs(v - opt) < tol, 'value %r, optimum %r', v, opt)
        xv = col(x)
        require(np.all(np.abs(xv) < 3 + 1e-4), 'bounds violated: %r', xv)
        if rough:
            continue
        # The point found is feasible and attains the value
        try:
            with np.errstate(all='ignore'):
                f = evaluate(case['obj'], xv, pv)
                for c in cons:
                    for e in c[1:3]:
                        evaluate(e, xv, pv)
        except Domain:
            # On the border of the domain
            continue
        def near(fn):
            """Values about xv: the functions may be steep, at the border of
            their domain, with respect to the accuracy of the variables."""
            out = []
            for d in itertools.product((-1e-4, 0., 1e-4), repeat=3):
                try:
                    with np.errstate(all='ignore'):
                        out.append(fn(xv + np.array(d)))
                except Domain:
                    pass
            return out

        if not abs(f - opt) < 10 * tol:
            fs = near(lambda t: evaluate(case['obj'], t, pv))
            require(min(fs) < opt < max(fs), 'the variables give %r, the '
                    'optimum is %r', f, opt)

        def excess(c, t):
            rel, a, b, k = c
            d = evaluate(a, t, pv) - evaluate(b, t, pv)
            return d - k if rel == 'leq' else -d - k if rel == 'geq' else \
                abs(d - k)

        for c in cons:
            lim = 1e-3 * (1 + abs(c[3]))
            e = excess(c, xv)
            require(e < lim or min(near(lambda t: excess(c, t))) < lim,
                    'constraint violated by %r', e)


def var_of(node):
    t = node[0]
    if t == 'v':
        return [node[1] % 3]
    if t == 'f':
        return [v for y in node[2] for v in var_of(y)]
    return [v for y in node[1:3] if isinstance(y, list) for v in var_of(y)]


def computed(f, *args):
    try:
        return f(*args)
    except ValueError as e:
        if str(e) != 'Unable to compute value':
            raise
        raise Given


# ------------------------------------------------------ programs as functions

@st.composite
def function_case(draw):
    n = draw(st.integers(1, 3))
    m = draw(st.integers(1, 3))
    k = draw(st.integers(1, 3))

    def call():
        return {'arg': draw(st.sampled_from([
                    'formal', 'free', 'swap', 'mixed'])),
                'B': small(draw, m, k, -2, 2), 'd': [
                    draw(dyadic(-2, 2, 4)) for _ in range(m)],
                'par': draw(st.sampled_from(['number', 'parameter', 'sum'])),
                'w': [draw(dyadic(.25, 2, 4)) for _ in range(n)]}
    return {'n': n, 'm': m, 'k': k, 'G': small(draw, m, n),
            'max': draw(st.booleans()),
            'order': draw(st.booleans()), 'closure': draw(st.booleans()),
            'num': [[draw(dyadic(-2, 2, 4)) for _ in range(m)]
                    for _ in range(2)],
            'q': [draw(dyadic(-2, 2, 4)) for _ in range(k)],
            'calls': [call() for _ in range(draw(st.integers(1, 3)))],
            'gains': [draw(st.sampled_from([.5, 1., 2.])) for _ in range(3)],
            'again': draw(st.booleans()), 'nest': draw(st.booleans())}


@subtest('C29', 'programs_as_functions', function_case(), quick=220,
         budget=60, rule='the function appears in a program with a variable '
                         'among its arguments')
def programs_as_functions(c, ctx):
    """min w'z + |z|_1/4 s.t. G z >= b, as a function of b and w: the value on
    numbers, and in a program, as often as one likes, against scipy."""
    cvx = lib()
    n, m, k = c['n'], c['m'], c['k']
    G = np.array(c['G'])
    s = -1. if c['max'] else 1.
    z = Vec(cvx, cvx.variable, n).a
    bf, wf = Vec(cvx, cvx.variable, m), Vec(cvx, cvx.parameter, n)
    off = cvx.parameter(name='off')
    off.value = .5
    obj = s * (wf.a.T * z) + s * .25 * cvx.sum(cvx.abs(z))
    if c['closure']:
        obj = obj + off
    lhs = cvx.matrix(G) * z
    f = cvx.program((cvx.maximize if c['max'] else cvx.minimize)(obj),
                    [cvx.geq(lhs, bf.a), cvx.leq(z, 4), cvx.geq(z, -4)],
                    [bf.obj, wf.obj] if c['order'] else [wf.obj, bf.obj],
                    name='f')

    def fun(b, w):
        # Single entries are scalars
        b = b if m > 1 else b[0, 0]
        w = w if n > 1 else w[0, 0]
        return f(b, w) if c['order'] else f(w, b)

    def cv(v):
        return cvx.matrix(np.reshape(v, (-1, 1)))

    def ref(blocks, y):
        """Joint program in y and, for each block, z and |z|."""
        nb = len(blocks)
        N = k + 2 * n * nb
        cost, A, b, const = np.zeros(N), [], [], 0.
        for i, (B, d, w, g) in enumerate(blocks):
            o = k + 2 * n * i
            cost[o:o + n] = g * np.array(w)
            cost[o + n:o + 2 * n] = g * .25
            const += g * s * (.5 if c['closure'] else 0)
            r = np.zeros((m, N))
            r[:, :k] = B
            r[:, o:o + n] = -G
            A.append(r)
            b.append(-np.array(d))
            for sg in (1, -1):
                r = np.zeros((n, N))
                r[:, o:o + n] = sg * np.eye(n)
                r[:, o + n:o + 2 * n] = -np.eye(n)
                A.append(r)
                b.append(np.zeros(n))
        cost[:k] = y
        sol = linprog(cost, np.vstack(A), np.concatenate(b),
                      bounds=[(-1, 1)] * k + ([(-4, 4)] * n +
                                              [(None, None)] * n) * nb,
                      method='highs')
        if sol.status not in (0, 2):
            raise Reject
        return s * (sol.fun + const) if sol.status == 0 else s * np.inf

    def same(got, want, what, more):
        require(got == want or abs(got - want) < TOL * more * (1 + abs(want)),
                '%s is %r rather than %r', what, got, want)

    # Numbers
    w0 = np.array(c['calls'][0]['w'])
    for b in c['num']:
        v, more = patient([f], lambda: computed(fun, cv(b), cv(w0)))
        same(v, ref([(np.zeros((m, k)), b, w0, 1.)], np.zeros(k)),
             'value on numbers', more)
    # In a program
    y = Vec(cvx, cvx.variable, k)
    blocks, e = [], 0
    pars = []
    cons = [cvx.leq(y.a, 1), cvx.geq(y.a, -1)]
    for call, g in zip(c['calls'], c['gains']):
        B, d = np.array(call['B']), np.array(call['d'])
        t = cvx.vstack([(cvx.matrix(B[i:i + 1]) * y.a) + float(d[i])
                        for i in range(m)])
        if call['arg'] in ('formal', 'swap'):
            # Arguments made of the very variables that are formals
            if any(x['arg'] in ('formal', 'swap') for x in c['calls']
                   if x is not call):
                raise Reject
            cons.append(cvx.eq(bf.a, t))
            arg = bf.a
            if call['arg'] == 'swap':
                # ... in another order
                arg = cvx.vstack([.5 * bf.a[m - 1 - i, 0] for i in range(m)])
                B, d = .5 * B[::-1], .5 * d[::-1]
        else:
            arg = t
            if not np.any(B):
                raise Reject
            if call['arg'] == 'mixed':
                # One entry is a number
                B = B.copy()
                B[0] = 0
                arg[0, 0] = float(d[0])
                if not np.any(B):
                    raise Reject
        w = np.array(call['w'])
        if call['par'] == 'number':
            wa = cv(w)
        else:
            p = Vec(cvx, cvx.parameter, n)
            pars.append((p, w))
            wa = p.a
            if call['par'] == 'sum':
                wa = .5 * wa + cv(np.full(n, .25))
                pars[-1] = (p, 2 * w - .5)
        if c['nest']:
            # The argument of a program that uses the program
            u = Vec(cvx, cvx.variable, m)
            if len(pars):
                pars[-1][0].set(pars[-1][1])
            t = cvx.program((cvx.maximize if c['max'] else cvx.minimize)
                            (fun(u.a, wa)), [], [u.obj])(
                                arg if m > 1 else arg[0, 0])
        else:
            t = fun(arg, wa)
        e = e + g * t
        blocks.append([B, d, w, g])
    if c['again']:
        e = e + t
        blocks.append(blocks[-1][:3] + [1.])
    ctx.nontrivial(True)
    e = e + s * (cvx.matrix([c['q']]) * y.a)
    prog = cvx.program((cvx.maximize if c['max'] else cvx.minimize)(e), cons)
    for p, v in pars:
        p.set(v)
    ctx.label('%d uses' % len(blocks))
    want = ref(blocks, np.array(c['q']))
    v, more = solve(prog)
    same(v, want, 'optimum', more)


# ---------------------------------------------------- how programs are called

KINDS = ['var', 'var', 'par', 'par', 'sym', 'low', 'up']
CALL_FAULTS = {
    'few': (TypeError, 'Invalid number of arguments'),
    'many': (TypeError, 'Invalid number of arguments'),
    'shape': (ValueError, 'Invalid argument shape'),
    'scalar': (ValueError, 'Invalid argument shape'),
    'reshaped': (ValueError, 'Invalid argument shape'),
    'nan': (ValueError, 'Invalid argument value: NaN'),
    'type': (TypeError, 'Invalid argument'),
    'variable': (TypeError, 'Invalid replacement'),
    'formal': (TypeError, 'Invalid formal'),
    'objective': (TypeError, 'Invalid objective'),
    'free': (ValueError, 'Invalid parameter value: NaN'),
    'hopeless': (ValueError, 'Unable to compute value'),
    'convexity': (ValueError, 'Program is not DCP'),
}


@st.composite
def called_case(draw):
    F = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(KINDS))
        m = draw(st.integers(1, 3))
        n = draw(st.integers(1, 2))
        if k in ('sym', 'low', 'up'):
            m = n = max(m, 2)
        F.append({'k': k, 'm': m, 'n': n,
                  'x': [[draw(dyadic(-2, 2, 4)) for _ in range(n)]
                        for _ in range(m)],
                  'as': draw(st.sampled_from(['number', 'same', 'expr']))})
    rows = draw(st.integers(1, 3))
    return {'F': F, 'A': [[small(draw, f['m'], f['n'], -2, 2) for f in F]
                          for _ in range(rows)],
            'c': [draw(dyadic(-3, 3, 4)) for _ in range(rows)],
            'max': draw(st.booleans()), 'free': draw(st.booleans()),
            'loose': draw(st.booleans()), 'reset': draw(st.booleans()),
            'fault': draw(st.sampled_from(sorted(CALL_FAULTS) + ['variable'])),
            'where': draw(st.integers(0, 5))}


@subtest('C29', 'programs_called', called_case(), quick=400, budget=40,
         rule='more than one formal, or a matrix')
def programs_called(c, ctx):
    """The largest (or smallest) of affine functions of formals of any kind and
    shape: values on numbers, on expressions, in a program; calls refused."""
    import contextlib
    import io
    cvx = lib()
    F, sg = c['F'], -1. if c['max'] else 1.
    if c['reset']:
        # Names do not tell variables one from the other
        cvx.variable_reset()
        cvx.parameter_reset()
    X = []
    for f in F:
        x = np.array(f['x'])
        if f['k'] == 'sym':
            x = (x + x.T) / 2
        elif f['k'] in ('low', 'up'):
            x = np.tril(x) if f['k'] == 'low' else np.triu(x)
        X.append(x)
    want = sg * max(sum(np.sum(np.array(a) * x) for a, x in zip(row, X)) + k
                    for row, k in zip(c['A'], c['c']))
    ctx.nontrivial(len(F) > 1 or X[0].size > 1)

    def new(f):
        if f['k'] == 'par':
            return cvx.parameter(f['m'], f['n'])
        return cvx.variable(f['m'], f['n'], {
            'sym': 'symmetric', 'low': 'lower_triangular',
            'up': 'upper_triangular'}.get(f['k']))

    def num(x):
        return float(x[0, 0]) if x.size == 1 else cvx.matrix(x)

    def inner(a, o):
        """Sum of the products of the elements."""
        if np.size(a) == 1:
            return float(a[0][0]) * o
        e = 0
        for i in range(o.shape[0]):
            for j in range(o.shape[1]):
                e = float(a[i][j]) * o[i, j] + e
        return e

    forms = [new(f) for f in F]
    if c['reset']:
        cvx.variable_reset()
        cvx.parameter_reset()
    t = cvx.variable()
    off = cvx.parameter()
    off.value = 1.
    cons = []
    for row, k in zip(c['A'], c['c']):
        e = k
        for a, o in zip(row, forms):
            e = e + inner(a, o)
        if c['free']:
            e = e + off - 1
        cons.append(cvx.leq(sg * e if sg > 0 else t, t if sg > 0 else sg * e))
    act = cvx.maximize if c['max'] else cvx.minimize
    opts = {'maxiters': 50, 'abstol': 1e-4, 'reltol': 1e-4,
            'feastol': 1e-5} if c['loose'] else None
    tol = (1e-3 if c['loose'] else 1e-5) * (1 + abs(want))

    def prog(obj=t, fs=forms, o=opts):
        return cvx.program(act(obj), cons, fs, o, 'greatest')

    def near(v, what):
        require(abs(v - want) < tol, '%s is %r instead of %r', what, v, want)

    p = prog()
    vals = [num(x) for x in X]
    near(patient([p], lambda: computed(p, *vals))[0], 'value on numbers')
    # Arguments other than numbers
    args, put = [], []
    for f, x, v in zip(F, X, vals):
        if f['as'] == 'number':
            args.append(v)
            continue
        o = new(f)
        put.append((o, v))
        if f['as'] == 'same':
            args.append(o)
        elif f['k'] in ('low', 'up'):
            # The elements that are null have to be so
            args.append(o)
        else:
            args.append(.5 * o + (.5 * v))
    e = patient([p], lambda: computed(p, *args))[0]
    if put:
        for o, v in put:
            if type(o).__name__ != 'cvxpy_var':
                o.value = v
                continue
            for i in range(v.shape[0]):
                for j in range(v.shape[1]):
                    if o[i, j] in o.variables:
                        o[i, j].value = v[i, j]
        near(patient([p], lambda: computed(lambda: e.value))[0],
             'value of the expression')
        require(str(e).startswith('greatest('), 'text %s', str(e))
    else:
        near(e, 'value on numbers')
    # The value results from a program as well
    pins = [cvx.eq(o, v) for o, v in put
            if type(o).__name__ in ('cvxpy_var', 'cvxpy_scalar_var')]
    pins = sum([list(q) if isinstance(q, list) else [q] for q in pins], [])
    pins = [q for q in pins if q.variables]
    whole = cvx.program(act(e), pins)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v, slack = solve(whole, quiet=False)
        whole.show()
        p.show()
    require(abs(v - want) < max(tol, 1e-5 * (1 + abs(want)) * slack),
            'optimum with the arguments pinned is %r instead of %r', v, want)
    text = out.getvalue()
    for q in cons + pins:
        require(str(q) in text, '%s is not in what show() prints', str(q))
    require(('maximize' if c['max'] else 'minimize') in text, 'show() prints '
            '%r', text)
    # Refused
    fault = c['fault']
    exc, msg = CALL_FAULTS[fault]
    w = c['where'] % len(F)
    bad = list(args)

    def swap(v):
        bad[w] = v
        return lambda: p(*bad)
    if fault == 'few':
        run = lambda: p(*bad[:-1])
    elif fault == 'many':
        run = lambda: p(*(bad + [1.]))
    elif fault == 'shape':
        m, n = X[w].shape
        run = swap([cvx.variable(m + 1, n), cvx.matrix(np.ones((m, n + 1))),
                    cvx.parameter(m + 1, n + 1),
                    cvx.vstack([t] * (m * n + 1))][c['where'] % 4])
    elif fault == 'reshaped':
        # As many elements, in a different arrangement
        m, n = X[w].shape
        to = [(n, m), (m * n, 1), (1, m * n)]
        to = [q for q in to if q != (m, n)]
        if not to:
            raise Reject
        to = to[c['where'] % len(to)]
        run = swap([cvx.variable(*to), cvx.matrix(X[w].reshape(to)),
                    cvx.parameter(*to)][c['where'] // 2])
    elif fault == 'scalar':
        if X[w].size == 1:
            raise Reject
        run = swap([1., t, off, t + off][c['where'] % 4])
    elif fault == 'nan':
        if X[w].size == 1:
            run = swap(np.nan)
        else:
            x = X[w].copy()
            x[-1, -1] = np.nan
            run = swap(cvx.matrix(x))
    elif fault == 'type':
        run = swap([None, X[w], [1.], {}, cvx.spmatrix(X[w]), p][c['where']])
        if c['where'] == 2 and len(bad) == 1:
            raise Reject
    elif fault == 'variable':
        w = [i for i, f in enumerate(F) if f['k'] == 'par']
        if not w:
            raise Reject
        w = w[c['where'] % len(w)]
        o = cvx.variable(*X[w].shape)
        run = swap([o, o + 1., o + forms[w], -o][c['where'] % 4])
    elif fault == 'formal':
        run = lambda: prog(fs=forms + [[2., None, t + 1, cvx.matrix(
            [[1., 2.]]), cvx.vstack([t, t]), 'x'][c['where']]])
    elif fault == 'objective':
        run = lambda: prog([cvx.variable(2, 1), cvx.matrix([[1., 2.]]), None,
                            [t], cvx.eq(t, 1), cvx.spmatrix((1, 1))]
                           [c['where']])
    elif fault == 'free':
        free = cvx.parameter()
        cons.append(cvx.leq(t, free) if sg > 0 else cvx.geq(t, free))
        q = prog()
        run = [lambda: q(*vals), lambda: prog(fs=[]).solve(quiet=True)][
            c['where'] % 2]
    elif fault == 'hopeless':
        # Hardly enough iterations
        few = {'maxiters': 1 + c['where'] % 2, 'abstol': 1e-9,
               'reltol': 1e-9, 'feastol': 1e-9}
        q, r = prog(o=few), cvx.program(act(p(*args)), pins, [], few)
        v, valid = r.solve(quiet=True, return_status=True)
        if valid:
            near(v, 'optimum in few iterations')
        # ... for a program where they are never enough
        z, x = cvx.parameter(), cvx.variable()
        k = float(X[w][0, 0])
        r = cvx.program(cvx.minimize(cvx.exp(x) + cvx.square(x - 3)),
                        [cvx.geq(x, z)], [z], few)
        run = lambda: r(k)
        ctx.label(fault)
        raises(exc, run, 'call with fault %s' % fault, msg)
        z.value = k
        v, valid = r.solve(quiet=True, return_status=True)
        require(not valid, 'solved to %r in two iterations', v)
        try:
            near(q(*vals), 'value in few iterations')
        except ValueError as ex:
            require('Unable to compute value' in str(ex), 'refused with %s',
                    ex)
        near(p(*vals), 'value on numbers, later,')
        return
    else:
        # Square of what is to be at least something
        cons.append(cvx.geq(cvx.square(t), 1) if sg > 0 else
                    cvx.leq(cvx.sqrt(t), 1))
        q = prog()
        require(not q.is_dcp(), 'accepted out of the rules')
        run = lambda: q(*vals)
    ctx.label(fault)
    raises(exc, run, 'call with fault %s' % fault, msg)
    # A further call is as good as the first one
    if c['fault'] not in ('free', 'convexity'):
        near(p(*vals), 'value on numbers, later,')
