"""Evaluation of condition terms over an abstract partition of the parameters: scalars are intervals, arrays are classes of
elements (each class an interval, each inhabited), polynomials have a fixed degree and interval coefficients, and named
predicates (symmetry, connectedness ...) have a fixed truth value."""
from .terms import T, C, subterms, Term

INF = float('inf')


def num(lo, hi=None):
    return ('num', lo, lo if hi is None else hi)


def arr(*classes, inhabited=True):
    return ('arr', tuple(classes), inhabited)


def poly(order, **coefs):
    """poly(4, c4=(0.1, 5), c3=...): unlisted coefficients are unknown"""
    return ('poly', order, tuple((int(k[1:]), num(*v) if isinstance(v, tuple) else num(v)) for k, v in sorted(coefs.items())))


def show(v):
    if v[0] == 'num':
        return '%g' % v[1] if v[1] == v[2] else '[%g, %g]' % v[1:3]
    if v[0] == 'arr':
        return 'array of ' + ' | '.join(map(show, v[1]))
    return 'polynomial of degree %d with %s' % (v[1], ', '.join('c%d in %s' % (k, show(x)) for k, x in sorted(v[2])))


def cmp2(op, a, b):
    """three-valued comparison of intervals"""
    if a is None or b is None or a[0] != 'num' or b[0] != 'num':
        return None
    al, ah, bl, bh = a[1], a[2], b[1], b[2]
    if op == 'Lt':
        return True if ah < bl else False if al >= bh else None
    if op == 'LtE':
        return True if ah <= bl else False if al > bh else None
    if op == 'Gt':
        return cmp2('Lt', b, a)
    if op == 'GtE':
        return cmp2('LtE', b, a)
    if op == 'Eq':
        return True if al == ah == bl == bh else False if ah < bl or bh < al else None
    if op == 'NotEq':
        r = cmp2('Eq', a, b)
        return None if r is None else not r


def mul(x, y):
    return 0 if x == 0 or y == 0 else x * y


def arith(op, a, b):
    if a is None or b is None or a[0] != 'num' or b[0] != 'num':
        return None
    al, ah, bl, bh = a[1], a[2], b[1], b[2]
    if op == 'Add':
        return num(al + bl, ah + bh)
    if op == 'Sub':
        return num(al - bh, ah - bl)
    if op == 'Mult':
        v = [mul(x, y) for x in (al, ah) for y in (bl, bh)]
        return num(min(v), max(v))
    if op == 'Div':
        if bl <= 0 <= bh:
            return None
        v = [x / y for x in (al, ah) for y in (bl, bh)]
        return num(min(v), max(v))
    if op == 'Mod' and al == ah and bl == bh and bl != 0 and float(al).is_integer() and float(bl).is_integer():
        return num(al % bl)
    if op == 'FloorDiv' and al == ah and bl == bh and bl != 0:
        return num(al // bl)
    if op == 'Pow' and bl == bh and float(bl).is_integer() and 0 <= bl <= 6:
        n = int(bl)
        v = [al ** n, ah ** n] + ([0] if al <= 0 <= ah and n % 2 == 0 else [])
        return num(min(v), max(v))
    return None


def b3(op, x, y):
    if op == 'and':
        return False if x is False or y is False else True if x and y else None
    if op == 'or':
        return True if x or y else False if x is False and y is False else None
    if op == 'xor':
        return None if x is None or y is None else x != y


class Dom:
    """params: {parameter name: abstract value}; preds: functions term -> True/False/None"""

    def __init__(self, params=(), preds=(), names=()):
        self.params = dict(params)
        self.preds = list(preds)
        self.names = set(names) | set(self.params)
        self.memo = {}

    def decide(self, p, st, t):
        r = self.ev(t)
        if r is not None and r[0] == 'bool':
            return r[1]
        if r is not None and r[0] == 'num':
            return True if r[1] > 0 or r[2] < 0 else False if r[1] == r[2] == 0 else None
        return None

    def mentions(self, t):
        return any(x.op == 'param' and x.args[0] in self.names for x in subterms(t))

    def ev(self, t):
        if not isinstance(t, Term):
            return None
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = None
        for f in self.preds:
            b = f(t)
            if b is not None:
                r = ('bool', b)
                break
        if r is None:
            r = self.ev1(t)
        self.memo[t] = r
        return r

    def lift(self, f, a, b):
        """element-wise"""
        if a is None or b is None:
            return None
        if a[0] == 'arr' and b[0] == 'arr':
            if len(a[1]) != len(b[1]):
                return None
            return ('arr', tuple(f(x, y) for x, y in zip(a[1], b[1])), a[2] and b[2])
        if a[0] == 'arr':
            return ('arr', tuple(f(x, b) for x in a[1]), a[2])
        if b[0] == 'arr':
            return ('arr', tuple(f(a, x) for x in b[1]), b[2])
        return f(a, b)

    def ev1(self, t):
        op, a = t.op, t.args
        if op == 'const':
            v = a[0]
            if isinstance(v, bool):
                return ('bool', v)
            if isinstance(v, (int, float)):
                return num(v)
            return None
        if op == 'param':
            return self.params.get(a[0])
        if op in ('Add', 'Sub', 'Mult', 'Div', 'Mod', 'FloorDiv', 'Pow'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is not None and x[0] == 'poly':
                if op in ('Add', 'Sub') and a[1] is T('idx', a[0], C(0)):
                    c = dict(x[2])
                    c.pop(0, None)
                    if op == 'Sub':
                        c[0] = num(0)
                    return ('poly', x[1], tuple(sorted(c.items())))
                return None
            return self.lift(lambda u, v: arith(op, u, v), x, y)
        if op == 'USub':
            return self.lift(lambda u, v: arith('Sub', u, v), num(0), self.ev(a[0]))
        if op == 'not':
            x = self.ev(a[0])
            return ('bool', None if x[1] is None else not x[1]) if x is not None and x[0] == 'bool' else None
        if op == 'cmp' and len(a) == 3:
            x, y = self.ev(a[1]), self.ev(a[2])
            return self.lift(lambda u, v: ('bool', cmp2(a[0], u, v)), x, y)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'and', 'or'):
            k = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}.get(op, op)
            return self.lift(lambda u, v: ('bool', b3(k, u[1], v[1])) if u is not None and v is not None and u[0] == v[0] == 'bool' else None, self.ev(a[0]), self.ev(a[1]))
        if op == 'Invert':
            x = self.ev(a[0])
            f = lambda u: ('bool', None if u[1] is None else not u[1]) if u is not None and u[0] == 'bool' else None
            return None if x is None else ('arr', tuple(map(f, x[1])), x[2]) if x[0] == 'arr' else f(x)
        if op in ('polyorder', 'attr', 'len'):
            x = self.ev(a[0])
            if x is not None and x[0] == 'poly':
                if op in ('polyorder', 'len') or a[1] in ('order', 'o'):
                    return num(x[1])
                if a[1] in ('coef', 'coeffs', 'c', 'coefficients'):
                    return self.coefs(x)
            return None
        if op == 'polycoef':
            x = self.ev(a[0])
            return self.coefs(x) if x is not None and x[0] == 'poly' else None
        if op == 'idx':
            x, i = self.ev(a[0]), self.ev(a[1])
            if x is None:
                return None
            if x[0] == 'poly':
                if i is not None and i[0] == 'num' and i[1] == i[2]:
                    return num(0) if i[1] > x[1] else dict(x[2]).get(int(i[1]))
                return None
            if x[0] == 'arr':
                k = a[1]
                if x[2] == 'exact' and k.op == 'slice' and all(z.op == 'const' and (z.args[0] is None or isinstance(z.args[0], int)) for z in k.args):
                    return ('arr', x[1][slice(*[z.args[0] for z in k.args])], 'exact')
                if x[2] == 'exact' and i is not None and i[0] == 'num' and i[1] == i[2] and -len(x[1]) <= i[1] < len(x[1]):
                    return x[1][int(i[1])]
                if i is not None and i[0] == 'num' or k.op in ('param', 'const', 'phi', 'site'):
                    vs = [v for v in x[1]]
                    if all(v is not None and v[0] == 'num' for v in vs):
                        return num(min(v[1] for v in vs), max(v[2] for v in vs))
                    return None
                full = k.op == 'slice' and all(z.op == 'const' and z.args[0] in (None, -1, 1) for z in k.args) or k.op == 'const' and k.args[0] in (None, Ellipsis)
                return ('arr', x[1], x[2] and full)
            return None
        if op == 'call':
            return self.call(t, a[0], [x for x in a[1:] if not (isinstance(x, Term) and x.op == 'kw')], {x.args[0]: x.args[1] for x in a[1:] if isinstance(x, Term) and x.op == 'kw'})
        if op in ('abs',):
            return self.call(t, 'numpy.abs', list(a), {})
        if op in ('float', 'int', 'identity', 'copy', 'poly1d'):
            return self.ev(a[0]) if a else None
        return None

    def coefs(self, x):
        return ('arr', tuple(dict(x[2]).get(i) for i in range(x[1], -1, -1)), 'exact')

    def call(self, t, name, pos, kw):
        if not isinstance(name, str):
            return None
        if name in ('polyorder', 'polycoef') and pos:
            return self.ev1(T(name, pos[0]))
        n = name.replace('numpy.', 'np.')
        if not pos:
            return None
        x = self.ev(pos[0])
        if n in ('np.allclose', 'np.array_equal') and len(pos) >= 2 and pos[0] is pos[1]:
            return ('bool', True)
        if x is None:
            return None
        if n in ('np.abs', 'np.fabs', 'np.absolute', 'abs'):
            def f(u):
                if u is None or u[0] != 'num':
                    return None
                lo, hi = u[1], u[2]
                return num(0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
            return ('arr', tuple(map(f, x[1])), x[2]) if x[0] == 'arr' else f(x)
        if n in ('np.logical_and', 'np.logical_or', 'np.logical_xor') and len(pos) == 2:
            return self.ev1(T({'np.logical_and': 'BitAnd', 'np.logical_or': 'BitOr', 'np.logical_xor': 'BitXor'}[n], pos[0], pos[1]))
        if n == 'np.logical_not':
            return self.ev1(T('Invert', pos[0]))
        ops = {'np.less': 'Lt', 'np.less_equal': 'LtE', 'np.greater': 'Gt', 'np.greater_equal': 'GtE', 'np.equal': 'Eq', 'np.not_equal': 'NotEq'}
        if n in ops and len(pos) == 2:
            return self.ev1(T('cmp', ops[n], pos[0], pos[1]))
        if n in ('np.isclose',) and len(pos) >= 2:
            y = self.ev(pos[1])

            def g(u, v):
                if u is None or v is None or u[0] != 'num' or v[0] != 'num':
                    return ('bool', None)
                d = max(u[1] - v[2], v[1] - u[2])
                return ('bool', False if d > 1e-4 and 'atol' not in kw and 'rtol' not in kw else True if u[1] == u[2] == v[1] == v[2] else None)
            return self.lift(g, x, y)
        if n in ('np.all', 'np.any', 'all', 'any', 'np.min', 'np.max', 'min', 'max') and x[0] == 'arr' and len(pos) == 1:
            if kw and not (set(kw) <= {'initial', 'keepdims'}):
                return None
            vs, inh = x[1], x[2]
            if n.endswith(('all', 'any')):
                bs = [v[1] if v is not None and v[0] == 'bool' else None for v in vs]
                if n.endswith('all'):
                    return ('bool', False if inh and False in bs else True if all(b is True for b in bs) else None)
                return ('bool', True if inh and True in bs else False if all(b is False for b in bs) else None)
            if any(v is None or v[0] != 'num' for v in vs):
                return None
            if not inh:
                return num(min(v[1] for v in vs), max(v[2] for v in vs))
            return num(min(v[1] for v in vs), min(v[2] for v in vs)) if n.endswith('min') else num(max(v[1] for v in vs), max(v[2] for v in vs))
        if n in ('np.asarray', 'np.array', 'np.atleast_1d', 'np.atleast_2d', 'np.asanyarray', 'np.ravel', 'np.copy', 'np.poly1d', 'np.transpose', 'np.sort', 'np.squeeze', 'np.reshape',
                 'float', 'int', 'np.float64', 'np.real'):
            return x
        return None


# ------------------------------------------------------------------ predicates about one matrix
def over(t, name):
    return any(x.op == 'param' and x.args[0] == name for x in subterms(t))


def transposed(a, b):
    return a.op == 'call' and a.args[0] == 'numpy.transpose' and a.args[1] is b or a.op == 'attr' and a.args[1] == 'T' and a.args[0] is b


CLOSE = ('numpy.allclose', 'numpy.array_equal', 'numpy.testing.assert_allclose')
PROD = ('numpy.einsum', 'numpy.dot', 'numpy.linalg.multi_dot', 'numpy.linalg.matrix_power', 'numpy.power', 'numpy.square', 'numpy.inner', 'numpy.sum', 'numpy.linalg.norm', 'numpy.vdot', 'numpy.matmul')


def asymmetric(name):
    def f(t):
        if t.op == 'call' and t.args[0] in CLOSE and len(t.args) >= 3:
            a, b = t.args[1], t.args[2]
            if over(t, name) and (transposed(a, b) or transposed(b, a)):
                return False
    return f


def has_product(t, name):
    return any(x.op == 'call' and x.args[0] in PROD and over(x, name) or x.op in ('MatMult', 'Pow', 'Mult') and over(x, name) for x in subterms(t))


def not_projection(name, symmetric=True):
    def f(t):
        if t.op == 'call' and t.args[0] in CLOSE and len(t.args) >= 3 and over(t, name):
            a, b = t.args[1], t.args[2]
            if a is b:
                return True
            if transposed(a, b) or transposed(b, a):
                return True if symmetric else None
            if has_product(a, name) != has_product(b, name) and over(a, name) and over(b, name):
                return False
    return f


def not_orthonormal(name):
    def f(t):
        if t.op == 'call' and t.args[0] in CLOSE and len(t.args) >= 3 and over(t, name):
            a, b = t.args[1], t.args[2]
            if a is b:
                return True
            eye = lambda x: x.op == 'call' and x.args[0] in ('numpy.eye', 'numpy.identity') or x.op == 'const' and x.args[0] in (1, 1.0)
            if has_product(a, name) and eye(b) or has_product(b, name) and eye(a):
                return False
    return f


def rank_deficient(name):
    """0 < rank(A) < number of rows <= number of columns"""
    def rk(x):
        return x.op == 'call' and x.args[0] in ('numpy.linalg.matrix_rank', 'scipy.linalg.matrix_rank') and over(x, name)

    def f(t):
        if t.op == 'cmp' and len(t.args) == 3:
            op, a, b = t.args
            if rk(b):
                op, a, b = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op), b, a
            if rk(a) and b.op == 'dim':
                return {'Lt': True, 'LtE': True, 'Gt': False, 'GtE': False, 'Eq': False, 'NotEq': True}[op]
            if rk(a) and b.op == 'call' and b.args[0] in ('min', 'numpy.min') and over(b, name):
                return {'Lt': True, 'LtE': True, 'Gt': False, 'GtE': False, 'Eq': False, 'NotEq': True}[op]
    return f


def disconnected(name):
    def f(t):
        if t.op == 'call' and isinstance(t.args[0], str) and over(t, name):
            if t.args[0].endswith('is_connected'):
                return False
        if t.op == 'cmp' and len(t.args) == 3 and over(t, name):
            a, b = t.args[1], t.args[2]
            if a.op == 'call' and str(a.args[0]).endswith('number_connected_components') and b.op == 'const' and b.args[0] == 1:
                return {'Lt': False, 'LtE': False, 'Gt': True, 'GtE': True, 'Eq': False, 'NotEq': True}[t.args[0]]
    return f


def size_vs(spec):
    """spec = 'size Gt K' or 'size Lt dim R': an integer parameter against a quantity read from another one.
    'K': any non-constant term that depends on the values of K (not only on its dimensions)."""
    from .terms import ratfunc
    parts = spec.split()
    name, rel, what = parts[0], parts[1], ' '.join(parts[2:])
    me = T('param', name)

    def fits(ms):
        """the monomials other than the parameter stand for the quantity"""
        ts = [m[0][0] if len(m) == 1 and m[0][1] == 1 else None for m in ms]
        if None in ts or len(ts) != 1:
            return False
        x = ts[0]
        return any(x is T('dim', w[4:]) if w.startswith('dim ') else x.op != 'dim' and over(x, w) for w in what.split('|'))

    def f(t):
        if t.op != 'cmp' or len(t.args) != 3 or t.args[0] not in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
            return None
        op, a, b = t.args
        if not (isinstance(a, Term) and isinstance(b, Term)):
            return None
        (p, q), (u, v) = ratfunc(a), ratfunc(b)
        if len(q) != 1 or len(v) != 1 or () not in q or () not in v:
            return None
        d = {}
        for m, c in p.items():
            d[m] = d.get(m, 0) + c / q[()]
        for m, c in u.items():
            d[m] = d.get(m, 0) - c / v[()]
        d = {m: c for m, c in d.items() if c}
        k = d.pop(((me, 1),), None)
        c0 = d.pop((), 0)
        if not k or len(d) != 1 or list(d.values())[0] != -k or not fits(list(d)):
            return None
        # k * (size - X) + c0 <op> 0, with size - X in an integer interval
        lo, hi = {'Gt': (1, INF), 'Lt': (-INF, -1), 'Eq': (0, 0)}[rel]
        x = arith('Add', arith('Mult', num(lo, hi), num(float(k))), num(float(c0)))
        return cmp2(op, x, num(0))
    return f


def symmetric(name):
    g = asymmetric(name)
    return lambda t: True if g(t) is False else None


def projection(name):
    def f(t):
        if t.op == 'call' and t.args[0] in CLOSE and len(t.args) >= 3 and over(t, name):
            return True
    return f


def orthonormal(name):
    g = not_orthonormal(name)
    return lambda t: True if g(t) is False else None


def full_rank(name):
    g = rank_deficient(name)

    def f(t):
        if t.op == 'cmp' and g(t) is not None:
            return {'Lt': False, 'LtE': True, 'Gt': False, 'GtE': True, 'Eq': True, 'NotEq': False}[t.args[0]]
    return f


def connected(name):
    g = disconnected(name)
    return lambda t: None if g(t) is None else not g(t)


def isint(name):
    """the parameter is a python int"""
    def f(t):
        if t.op in ('is', 'cmp') and len(t.args) >= 2:
            a, b = t.args[-2:]
            if a.op == 'type' and a.args[0] is T('param', name) and b.op == 'ext':
                return (b.args[0] == 'int') == (t.op == 'is' or t.args[0] == 'Eq')
    return f


def dims_rel(rel):
    def mk(spec):
        """two symbolic dimensions 'N P' with N <rel> P"""
        from .terms import ratfunc
        a, b = (T('dim', x) for x in spec.split())

        def f(t):
            if t.op in ('cmp',) and len(t.args) == 3:
                op, x, y = t.args
                if not (isinstance(x, Term) and isinstance(y, Term)):
                    return None
                if op in ('Eq', 'NotEq') and {x.op, y.op} == {'shape'}:
                    return None
                if x.op == 'tuple' and y.op == 'tuple' and op in ('Eq', 'NotEq') and len(x.args) == len(y.args):
                    rs = [f(T('cmp', 'Eq', u, v)) if u is not v else True for u, v in zip(x.args, y.args)]
                    return (op == 'NotEq') if False in rs else None
                (p, q), (u, v) = ratfunc(x), ratfunc(y)
                if len(q) != 1 or len(v) != 1 or () not in q or () not in v:
                    return None
                d = {}
                for m, c in p.items():
                    d[m] = d.get(m, 0) + c / q[()]
                for m, c in u.items():
                    d[m] = d.get(m, 0) - c / v[()]
                k, l, c0 = d.pop(((a, 1),), 0), d.pop(((b, 1),), 0), d.pop((), 0)
                if any(d.values()) or not k or k != -l:
                    return None
                if rel == 'NotEq':
                    return None if c0 else {'Eq': False, 'NotEq': True}.get(op)
                z = arith('Add', arith('Mult', num(*((1, INF) if rel == 'Gt' else (0, 0) if rel == 'Eq' else (-INF, 0))), num(float(k))), num(float(c0)))
                return cmp2(op, z, num(0))
            if t.op == 'len' and t.args[0].op == 'set' and set(t.args[0].args) == {a, b} and rel in ('NotEq', 'Gt'):
                return None
        return f
    return mk


differ, taller, wider, equal = dims_rel('NotEq'), dims_rel('Gt'), dims_rel('LtE'), dims_rel('Eq')
