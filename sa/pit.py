"""Identity testing of extracted terms: decides whether the expression the analyser extracted for a value equals a documented formula.

Both sides are evaluated at several pseudo-random points of the domain (sizes are small integers, everything else generic reals), which
decides equality of such expressions except on a set of measure zero.  Nothing of the package is run: what is evaluated is the term the
abstract interpretation computed and the formula written in the specification, with a small interpreter for vector arithmetic (Arr).

  * draws are atoms: standard normal / gamma(shape) / beta(a, b) / uniform variates, identified up to a permutation of the atoms with the same
    law (they are exchangeable); normal(m, s) = m + s*Z, gamma(k, s) = s*G(k), chisquare(d) = 2*G(d/2), ...
  * decompositions and special functions are uninterpreted (hashed) functions of the value of their arguments; eigenvalue routines are one
    function of the matrix, homogeneous of degree one.
  * anything else raises NotEval and the comparison is undecided.
"""
import ast
import cmath
import hashlib
import itertools
import math
import random
from .terms import T, C, Term, subterms


class NotEval(Exception):
    pass


class Dtype(str):
    def __new__(cls, v):
        s = str.__new__(cls, 'dtype')
        d = v.data if isinstance(v, Arr) else [v]
        s.kind = 'c' if any(isinstance(x, complex) for x in d) else 'f' if any(isinstance(x, float) for x in d) else 'b' if d and all(isinstance(x, bool) for x in d) else 'i'
        return s


class NumErr(NotEval):
    """not defined: the library raises for these operands"""


IEEE = [False]      # division by zero and the like give inf or nan


class Arr:
    __slots__ = ('shape', 'data')

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)

    def __repr__(self):
        return 'Arr%r%r' % (self.shape, [round(x, 4) if isinstance(x, float) else x for x in self.data[:8]])


def size_of(shape):
    n = 1
    for k in shape:
        n *= k
    return n


def arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (bool, int, float, complex)):
        return Arr((), [x])
    if isinstance(x, (tuple, list)):
        xs = [arr(y) for y in x]
        if not xs:
            return Arr((0,), [])
        if any(y.shape != xs[0].shape for y in xs):
            raise NotEval('ragged')
        return Arr((len(xs),) + xs[0].shape, [v for y in xs for v in y.data])
    raise NotEval('arr of %s' % type(x).__name__)


def out(a):
    return a.data[0] if a.shape == () else a


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    r = []
    for i in range(n):
        k = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                if k != 1 and k != s[j]:
                    raise NumErr('broadcast')
                k = s[j]
        r.append(k)
    return tuple(r)


def strides(shape):
    st, k = [], 1
    for d in reversed(shape):
        st.append(k)
        k *= d
    return st[::-1]


def broadcast(a, shape):
    if a.shape == shape:
        return a.data
    n = len(shape)
    st = strides(a.shape)
    off = n - len(a.shape)
    res = []
    for ix in itertools.product(*[range(k) for k in shape]):
        p = 0
        for i in range(off, n):
            if a.shape[i - off] != 1:
                p += ix[i] * st[i - off]
        res.append(a.data[p])
    return res


def ieee(f, v, e):
    if any(isinstance(x, complex) or not isinstance(x, (int, float)) for x in v):
        raise NotEval(str(e))
    if isinstance(e, TypeError):
        raise NotEval(str(e))
    if isinstance(e, OverflowError):
        return math.inf
    if len(v) == 1 and v[0] == 0:
        try:
            y = f(1e-300)
            return math.copysign(math.inf, y) if abs(y) > 100 else math.nan
        except (ValueError, OverflowError):
            return math.inf
    if isinstance(e, ZeroDivisionError) and len(v) == 2 and v[0] == v[0] and v[0] != 0 and v[1] == 0:
        return math.copysign(math.inf, v[0])
    return math.nan


def cell(f):
    def g(*v):
        if not IEEE[0]:
            return f(*v)
        try:
            return f(*v)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
            return ieee(f, v, e)
    return g


def lift(f):
    f = cell(f)

    def g(*xs):
        ys = [arr(x) for x in xs]
        try:
            if all(y.shape == () for y in ys):
                return f(*[y.data[0] for y in ys])
            sh = bshape(*[y.shape for y in ys])
            return Arr(sh, [f(*v) for v in zip(*[broadcast(y, sh) for y in ys])])
        except (ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
            raise NotEval(str(e))
    return g


def _pow(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        return a ** b
    r = a ** b
    if isinstance(r, complex):
        raise ValueError('complex power')
    return r


def _sqrt(x):
    return cmath.sqrt(x) if isinstance(x, complex) else math.sqrt(x)


def _real(f, g=None):
    return lambda x: (g or getattr(cmath, f))(x) if isinstance(x, complex) else getattr(math, f)(x)


add, sub, mul = lift(lambda a, b: a + b), lift(lambda a, b: a - b), lift(lambda a, b: a * b)
div, power = lift(lambda a, b: a / b), lift(_pow)
ELEM = dict(sqrt=_sqrt, exp=_real('exp'), log=_real('log'), cos=_real('cos'), sin=_real('sin'), tan=_real('tan'), arcsin=_real('asin'), arccos=_real('acos'),
            arctan=_real('atan'), sinh=_real('sinh'), cosh=_real('cosh'), tanh=_real('tanh'), abs=abs, absolute=abs, fabs=abs, square=lambda x: x * x, sign=lambda x: (x > 0) - (x < 0),
            floor=math.floor, ceil=math.ceil, rint=lambda x: float(round(x)), conj=lambda x: x.conjugate() if isinstance(x, complex) else x,
            real=lambda x: x.real, imag=lambda x: x.imag, log2=math.log2, log10=math.log10, log1p=math.log1p, expm1=math.expm1, negative=lambda x: -x,
            gammaln=math.lgamma, loggamma=math.lgamma, gamma=math.gamma, erf=math.erf, erfc=math.erfc, logical_not=lambda x: not x, isreal=lambda x: not isinstance(x, complex) or x.imag == 0,
            angle=lambda x: cmath.phase(x), int=int, float=float, cbrt=lambda x: math.copysign(abs(x) ** (1 / 3), x), reciprocal=lambda x: 1 / x, deg2rad=math.radians,
            round=lambda x: float(round(x)))
ELEM = {k: lift(f) for k, f in ELEM.items()}
ELEM2 = dict(maximum=max, minimum=min, power=_pow, arctan2=math.atan2, beta=lambda a, b: math.exp(math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)),
             betaln=lambda a, b: math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b), hypot=math.hypot, logical_and=lambda a, b: bool(a and b),
             logical_or=lambda a, b: bool(a or b), add=lambda a, b: a + b, subtract=lambda a, b: a - b, multiply=lambda a, b: a * b, divide=lambda a, b: a / b,
             true_divide=lambda a, b: a / b, floor_divide=lambda a, b: a // b, mod=lambda a, b: a % b)
ELEM2 = {k: lift(f) for k, f in ELEM2.items()}
CMPS = dict(Lt=lambda a, b: a < b, LtE=lambda a, b: a <= b, Gt=lambda a, b: a > b, GtE=lambda a, b: a >= b, Eq=lambda a, b: a == b, NotEq=lambda a, b: a != b)
CMPS = {k: lift(f) for k, f in CMPS.items()}
BIN = dict(Add=add, Sub=sub, Mult=mul, Div=div, Pow=power, FloorDiv=lift(lambda a, b: a // b), Mod=lift(lambda a, b: a % b),
           BitAnd=lift(lambda a, b: a & b), BitOr=lift(lambda a, b: a | b), BitXor=lift(lambda a, b: a ^ b))


def transpose(x):
    a = arr(x)
    if len(a.shape) < 2:
        return x
    if len(a.shape) > 2:
        raise NotEval('transpose')
    m, n = a.shape
    return Arr((n, m), [a.data[i * n + j] for j in range(n) for i in range(m)])


def dot(x, y):
    a, b = arr(x), arr(y)
    if not a.shape or not b.shape:
        return mul(x, y)
    if len(a.shape) > 2 or len(b.shape) > 2:
        raise NotEval('dot')
    k = a.shape[-1]
    if b.shape[0] != k:
        raise NumErr('dot shapes')
    m = a.shape[0] if len(a.shape) == 2 else 1
    n = b.shape[1] if len(b.shape) == 2 else 1
    r = [sum(a.data[i * k + l] * b.data[l * n + j] for l in range(k)) for i in range(m) for j in range(n)]
    return out(Arr(a.shape[:-1] + b.shape[1:], r))


def reduce_axis(x, axis, f, keepdims=False):
    a = arr(x)
    if axis is None:
        r = f(a.data)
        return Arr((1,) * len(a.shape), [r]) if keepdims and a.shape else r
    if isinstance(axis, tuple):
        raise NotEval('axes')
    nd = len(a.shape)
    axis = axis % nd if nd else 0
    sh = a.shape[:axis] + a.shape[axis + 1:]
    st = strides(a.shape)
    res = []
    for ix in itertools.product(*[range(k) for k in sh]):
        full = list(ix[:axis]) + [0] + list(ix[axis:])
        base = sum(i * s for i, s in zip(full, st))
        res.append(f([a.data[base + j * st[axis]] for j in range(a.shape[axis])]))
    if keepdims:
        sh = a.shape[:axis] + (1,) + a.shape[axis + 1:]
    return out(Arr(sh, res))


def _prod(v):
    r = 1
    for x in v:
        r = r * x
    return r


def cumulate(x, axis, f):
    a = arr(x)
    if axis is None or len(a.shape) == 1:
        r, s = [], None
        for v in a.data:
            s = v if s is None else f(s, v)
            r.append(s)
        return Arr((len(r),), r)
    if len(a.shape) != 2:
        raise NotEval('cumulate')
    m, n = a.shape
    b = list(a.data)
    for i in range(m):
        for j in range(n):
            if axis % 2 == 0 and i:
                b[i * n + j] = f(b[(i - 1) * n + j], b[i * n + j])
            if axis % 2 == 1 and j:
                b[i * n + j] = f(b[i * n + j - 1], b[i * n + j])
    return Arr(a.shape, b)


def shape_arg(s):
    if isinstance(s, Arr):
        s = tuple(s.data)
    if isinstance(s, (int, float)):
        s = (s,)
    if not isinstance(s, (tuple, list)) or any(not isinstance(k, (int, float)) or k != int(k) or k < 0 for k in s):
        raise NotEval('shape')
    s = tuple(int(k) for k in s)
    if size_of(s) > 4000:
        raise NotEval('too large')
    return s


def full(s, v):
    s = shape_arg(s)
    return out(Arr(s, [v] * size_of(s)))


def arange(*a, step=None, start=None, stop=None, dtype=None):
    a = list(a)
    if stop is not None:
        a.append(stop)
    if len(a) == 1:
        a = [0] + a
    if step is not None:
        a = a[:2] + [step]
    st = a[2] if len(a) > 2 else 1
    n = max(0, math.ceil((a[1] - a[0]) / st - 1e-12))
    if n > 4000:
        raise NotEval('too large')
    return Arr((n,), [a[0] + i * st for i in range(n)])


def linspace(a, b, num=50, endpoint=True):
    n = int(num)
    if n > 400 or n < 1:
        raise NotEval('linspace')
    d = (b - a) / ((n - 1 if endpoint else n) or 1)
    return Arr((n,), [a + i * d for i in range(n)])


def diag(x, k=0):
    a = arr(x)
    if len(a.shape) == 1:
        n = a.shape[0] + abs(k)
        r = [0.0] * (n * n)
        for i, v in enumerate(a.data):
            r[(i + max(-k, 0)) * n + i + max(k, 0)] = v
        return Arr((n, n), r)
    m, n = a.shape
    r = [a.data[i * n + i + k] for i in range(m) if 0 <= i + k < n]
    return Arr((len(r),), r)


def eye(n, m=None):
    m = n if m is None else m
    return Arr((n, m), [1.0 if i == j else 0.0 for i in range(n) for j in range(m)])


def det(x):
    a = arr(x)
    if len(a.shape) != 2 or a.shape[0] != a.shape[1]:
        if len(a.shape) == 3 and a.shape[1] == a.shape[2]:
            k = a.shape[1] ** 2
            return Arr((a.shape[0],), [det(Arr(a.shape[1:], a.data[i * k:i * k + k])) for i in range(a.shape[0])])
        raise NumErr('det of a rectangular matrix')
    n = a.shape[0]
    m = [a.data[i * n:(i + 1) * n] for i in range(n)]
    d = 1.0
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if abs(m[p][i]) < 1e-14:
            return 0.0
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d = d * m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            m[r] = [u - f * v for u, v in zip(m[r], m[i])]
    return d


def solve(x, y):
    a, b = arr(x), arr(y)
    if len(a.shape) != 2 or a.shape[0] != a.shape[1] or b.shape[0] != a.shape[0]:
        raise NumErr('solve')
    n = a.shape[0]
    k = size_of(b.shape[1:])
    m = [a.data[i * n:(i + 1) * n] + b.data[i * k:(i + 1) * k] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if abs(m[p][i]) < 1e-12:
            raise NumErr('singular')
        m[i], m[p] = m[p], m[i]
        m[i] = [v / m[i][i] for v in m[i]]
        for r in range(n):
            if r != i:
                f = m[r][i]
                m[r] = [u - f * v for u, v in zip(m[r], m[i])]
    return Arr(b.shape, [v for row in m for v in row[n:]])


def norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None and ord not in (2, 'fro') or ord == 2 and len(arr(x).shape) > 1 and axis is None:
        raise NotEval('norm')
    return reduce_axis(x, axis, lambda v: math.sqrt(sum(abs(u) ** 2 for u in v)), keepdims)


def join(xs, axis=0):
    ys = [arr(x) for x in (list(xs) if isinstance(xs, (tuple, list)) else rows(xs))]
    ys = [Arr((1,), y.data) if y.shape == () else y for y in ys]
    if not ys:
        raise NotEval('concatenate')
    nd = len(ys[0].shape)
    if any(len(y.shape) != nd for y in ys) or nd > 2:
        raise NotEval('concatenate')
    axis %= nd
    if axis == 0:
        if any(y.shape[1:] != ys[0].shape[1:] for y in ys):
            raise NumErr('concatenate')
        return Arr((sum(y.shape[0] for y in ys),) + ys[0].shape[1:], [v for y in ys for v in y.data])
    m = ys[0].shape[0]
    if any(y.shape[0] != m for y in ys):
        raise NumErr('concatenate')
    return Arr((m, sum(y.shape[1] for y in ys)), [v for i in range(m) for y in ys for v in y.data[i * y.shape[1]:(i + 1) * y.shape[1]]])


def rows(x):
    if isinstance(x, (tuple, list)):
        return list(x)
    a = arr(x)
    if not a.shape:
        raise NotEval('rows of a scalar')
    k = size_of(a.shape[1:])
    return [out(Arr(a.shape[1:], a.data[i * k:(i + 1) * k])) for i in range(a.shape[0])]


def atleast_2d(x):
    a = arr(x)
    return a if len(a.shape) >= 2 else Arr((1,) + (a.shape or (1,)), a.data)


def column(x):
    a = arr(x)
    return a if len(a.shape) == 2 else Arr((size_of(a.shape), 1), a.data)


def block(x):
    if not isinstance(x, (tuple, list)):
        return x
    if isinstance(x[0], (tuple, list)):
        return join([join([atleast_2d(y) for y in r], 1) for r in x], 0)
    return join([arr(y) for y in x], -1)


def _ix(*a):
    a = [arr(x).data for x in a]
    a = [[i for i, v in enumerate(x) if v] if x and all(isinstance(v, bool) for v in x) else x for x in a]
    return tuple(Arr(tuple(len(x) if i == j else 1 for j in range(len(a))), x) for i, x in enumerate(a))


def isbool(d, k):
    return str(d[0] if d else k.get('dtype')) in ('bool', 'numpy.bool_')


def block_diag(xs):
    ys = [atleast_2d(y) for y in (xs if isinstance(xs, (tuple, list)) else rows(xs))]
    m, n = sum(y.shape[0] for y in ys), sum(y.shape[1] for y in ys)
    r = [0.0] * (m * n)
    i0 = j0 = 0
    for y in ys:
        for i in range(y.shape[0]):
            for j in range(y.shape[1]):
                r[(i0 + i) * n + j0 + j] = y.data[i * y.shape[1] + j]
        i0, j0 = i0 + y.shape[0], j0 + y.shape[1]
    return Arr((m, n), r)


def reshape(x, *s):
    a = arr(x)
    s = s[0] if len(s) == 1 else s
    s = [s] if isinstance(s, (int, float)) else list(s.data if isinstance(s, Arr) else s)
    if -1 in s:
        k = -size_of(s)
        s[s.index(-1)] = len(a.data) // k if k else 0
    s = shape_arg(tuple(s))
    if size_of(s) != len(a.data):
        raise NumErr('reshape')
    return out(Arr(s, a.data))


def index(a, ix):
    """numpy indexing of an Arr (basic, one group of integer arrays, full masks)"""
    if not isinstance(ix, tuple):
        ix = (ix,)
    if any(x is Ellipsis for x in ix):
        k = ix.index(Ellipsis)
        ix = ix[:k] + (slice(None),) * (len(a.shape) - (len(ix) - 1 - sum(x is None for x in ix))) + ix[k + 1:]
    if len(ix) == 1 and isinstance(ix[0], Arr) and ix[0].data and all(isinstance(v, bool) for v in ix[0].data):
        m = ix[0]
        if m.shape == a.shape[:len(m.shape)]:
            k = size_of(a.shape[len(m.shape):])
            sel = [i for i, v in enumerate(m.data) if v]
            return Arr((len(sel),) + a.shape[len(m.shape):], [a.data[i * k + j] for i in sel for j in range(k)])
        raise NumErr('mask')
    axes, ax, fancy = [], 0, []
    for x in ix:
        if x is None:
            axes.append(('new',))
            continue
        if ax >= len(a.shape):
            raise NumErr("too many indices %s %s" % (a.shape, ix))
        n = a.shape[ax]
        if isinstance(x, slice):
            try:
                axes.append(('list', list(range(n)[slice(*[int(v) if v is not None else None for v in (x.start, x.stop, x.step)])])))
            except (TypeError, ValueError):
                raise NotEval('slice')
        elif isinstance(x, bool):
            raise NotEval('bool index')
        elif isinstance(x, (int, float)) and x == int(x):
            x = int(x)
            if not -n <= x < n:
                raise NumErr('index out of range')
            axes.append(('int', x % n))
        elif isinstance(x, (Arr, list, tuple)):
            x = arr(x)
            v = x.data
            if v and all(isinstance(u, bool) for u in v):
                if len(v) != n:
                    raise NumErr('mask of another length')
                v = [i for i, u in enumerate(v) if u]
                x = Arr((len(v),), v)
            if any(not -n <= u < n or u != int(u) for u in v):
                raise NumErr('index out of range')
            x = Arr(x.shape, [int(u) % n for u in v])
            fancy.append(len(axes))
            axes.append(('arr', x))
        else:
            raise NotEval('index')
        ax += 1
    while ax < len(a.shape):
        axes.append(('list', list(range(a.shape[ax]))))
        ax += 1
    st = strides(a.shape)
    if len(fancy) == 1 and len(axes[fancy[0]][1].shape) == 1:
        axes[fancy[0]] = ('list', axes[fancy[0]][1].data)
        fancy = []
    if fancy:
        sh = bshape(*[axes[i][1].shape for i in fancy])
        if any(axes[i][0] not in ('arr',) for i in range(fancy[0], fancy[-1] + 1)):
            raise NotEval('split fancy index')
        vals = [broadcast(axes[i][1], sh) for i in fancy]
        comb = [tuple(v[j] for v in vals) for j in range(size_of(sh))]
    dims, shape = [], []
    ax = 0
    for i, x in enumerate(axes):
        if x[0] == 'new':
            dims.append([0])
            shape.append(1)
            continue
        if x[0] == 'int':
            dims.append([x[1] * st[ax]])
        elif x[0] == 'list':
            dims.append([v * st[ax] for v in x[1]])
            shape.append(len(x[1]))
        else:
            if i == fancy[0]:
                dims.append([sum(v * st[ax + j] for j, v in enumerate(c)) for c in comb])
                shape.extend(sh)
        ax += 1
    return Arr(shape, [a.data[sum(c)] for c in itertools.product(*dims)])


def getidx(x, ix):
    if isinstance(x, (tuple, list, str)) and isinstance(ix, (int, float, slice)):
        try:
            return x[ix if isinstance(ix, slice) else int(ix)]
        except (IndexError, TypeError):
            raise NotEval('tuple index')
    return out(index(arr(x), ix))


def update(x, ix, v):
    a = arr(x)
    if not a.shape:
        raise NotEval('update of a scalar')
    pos = index(Arr(a.shape, range(len(a.data))), ix)
    v = arr(v)
    while len(v.shape) > len(pos.shape) and v.shape[0] == 1:
        v = Arr(v.shape[1:], v.data)
    if len(v.shape) > len(pos.shape) or bshape(v.shape, pos.shape) != pos.shape:
        raise NumErr('update with an array of another shape')
    vals = broadcast(v, pos.shape)
    d = list(a.data)
    for p, w in zip(pos.data, vals):
        d[p] = w
    return Arr(a.shape, d)


# ------------------------------------------------------------------ polynomials
class Poly:
    def __init__(self, coefs):
        c = list(coefs)
        while len(c) > 1 and c[0] == 0:
            c.pop(0)
        self.c = c or [0.0]     # highest degree first

    def up(self):
        return self.c[::-1]

    def __call__(self, x):
        r = 0.0
        for v in self.c:
            r = add(mul(r, x), v) if not isinstance(x, Poly) else pbin('Add', pbin('Mult', r, x), v)
        return r

    def coef(self, k):
        k = int(k)
        return self.c[len(self.c) - 1 - k] if 0 <= k < len(self.c) else 0.0


def topoly(x):
    if isinstance(x, Poly):
        return x
    x = arr(x)
    if x.shape:
        raise NotEval('poly op array')
    return Poly([x.data[0]])


def pbin(op, a, b):
    if op == 'Pow':
        if not isinstance(a, Poly) or b != int(b) or b < 0:
            raise NotEval('poly power')
        r = Poly([1.0])
        for _ in range(int(b)):
            r = pbin('Mult', r, a)
        return r
    if op == 'Div':
        if isinstance(b, Poly):
            raise NotEval('poly division')
        return Poly([v / b for v in a.c])
    x, y = topoly(a).up(), topoly(b).up()
    if op in ('Add', 'Sub'):
        n = max(len(x), len(y))
        x, y = x + [0.0] * (n - len(x)), y + [0.0] * (n - len(y))
        return Poly([u + v if op == 'Add' else u - v for u, v in zip(x, y)][::-1])
    if op == 'Mult':
        r = [0.0] * (len(x) + len(y) - 1)
        for i, u in enumerate(x):
            for j, v in enumerate(y):
                r[i + j] += u * v
        return Poly(r[::-1])
    raise NotEval('poly ' + op)


def proots(p):
    c = p.c
    n = len(c) - 1
    if n < 1:
        return Arr((0,), [])
    z = roots([(-1) ** k * c[k] / c[0] for k in range(n + 1)])
    z = [v.real if abs(v.imag) < 1e-7 * max(1.0, abs(v)) else v for v in z]
    return Arr((n,), sorted(z, key=lambda v: (complex(v).real, complex(v).imag)))


def pderiv(p, m=1):
    for _ in range(int(m)):
        n = len(p.c) - 1
        p = Poly([v * (n - i) for i, v in enumerate(p.c[:-1])] or [0.0])
    return p


def padd_all(xs):
    r = 0.0
    for x in xs:
        r = pbin('Add', r, x) if isinstance(r, Poly) or isinstance(x, Poly) else add(r, x)
    return r


# ------------------------------------------------------------------ uninterpreted functions
def canon(v):
    if isinstance(v, Arr):
        return '%r[%s]' % (v.shape, ','.join(canon(x) for x in v.data))
    if isinstance(v, (tuple, list)):
        return '(%s)' % ','.join(canon(x) for x in v)
    if isinstance(v, complex):
        if abs(v.imag) < 1e-12 * max(1, abs(v.real)):
            return canon(v.real)
        return canon(v.real) + '+i' + canon(v.imag)
    if isinstance(v, (bool, int, float)):
        s = '%.7g' % (float(v) if abs(v) > 1e-11 else 0.0)
        return '0' if s == '-0' else s
    return repr(v)


def hashed(key, n, lo=-1.0, hi=1.0):
    r = random.Random(hashlib.sha256(key.encode()).hexdigest())
    return [lo + (hi - lo) * r.random() for _ in range(n)]


def uf(name, n, *args):
    return hashed(name + '|' + '|'.join(canon(a) for a in args), n)


def square(a):
    a = arr(a)
    if len(a.shape) != 2 or a.shape[0] != a.shape[1] or not a.data:
        raise NotEval('not a square matrix')
    return a


def eig(x):
    """(eigenvalues, eigenvectors) of a matrix: for real symmetric ones, sorted, the vectors with arbitrary signs; otherwise the roots of the
    characteristic polynomial (through the traces of the powers), and vectors that are an uninterpreted function of the matrix up to a positive factor"""
    a = square(x)
    n = a.shape[0]
    if all(not isinstance(v, complex) for v in a.data) and all(abs(a.data[i * n + j] - a.data[j * n + i]) < 1e-9 for i in range(n) for j in range(i)):
        return jacobi(a)
    tr, q = [], a
    for k in range(n):
        tr.append(sum(q.data[i * n + i] for i in range(n)))
        if k < n - 1:
            q = dot(q, a)
    s = max(abs(v) ** (1 / (k + 1)) for k, v in enumerate(tr))
    if s < 1e-12:
        raise NotEval('nilpotent')
    f = math.sqrt(sum(abs(v) ** 2 for v in a.data)) or 1.0
    pw = [v / s ** (k + 1) for k, v in enumerate(tr)]
    pairs = False
    if n > 1 and n % 2 == 0:        # is the spectrum made of pairs?
        e = elementary([v / 2 for v in pw])
        pairs = all(abs(v) < 1e-8 for v in e[n // 2 + 1:])
    vals = roots(elementary([v / 2 for v in pw])[:n // 2 + 1] if pairs else elementary(pw)) * (2 if pairs else 1)
    vals = [v.real if abs(v.imag) < 1e-7 else v for v in vals]
    vals.sort(key=lambda v: (round(v.real, 7), v.imag))
    return Arr((n,), [s * v for v in vals]), Arr((n, n), uf('eigvec', n * n, Arr(a.shape, [v / f for v in a.data])))


def elementary(pw):
    """elementary symmetric polynomials from power sums (Newton)"""
    e = [1.0]
    for k in range(1, len(pw) + 1):
        e.append(sum((-1) ** (i - 1) * e[k - i] * pw[i - 1] for i in range(1, k + 1)) / k)
    return e


def roots(e):
    """roots of x^n - e1 x^(n-1) + e2 x^(n-2) - ... (Durand-Kerner)"""
    n = len(e) - 1
    c = [(-1) ** k * v for k, v in enumerate(e)]
    z = [(0.4 + 0.9j) ** k for k in range(n)]
    for _ in range(500):
        w = []
        for i in range(n):
            num = 0
            for v in c:
                num = num * z[i] + v
            den = 1
            for j in range(n):
                if j != i:
                    den *= z[i] - z[j]
            w.append(num / den if den else 0)
        z = [u - v for u, v in zip(z, w)]
        if max(abs(v) for v in w) < 1e-14:
            break
    return [complex(v) for v in z]


def jacobi(a):
    n = a.shape[0]
    m = [list(map(float, a.data[i * n:(i + 1) * n])) for i in range(n)]
    v = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(m[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-26:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(m[p][q]) < 1e-300:
                    continue
                th = (m[q][q] - m[p][p]) / (2 * m[p][q])
                t = math.copysign(1, th) / (abs(th) + math.sqrt(th * th + 1)) if abs(th) < 1e150 else 0.5 / th
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    m[k][p], m[k][q] = c * m[k][p] - s * m[k][q], s * m[k][p] + c * m[k][q]
                for k in range(n):
                    m[p][k], m[q][k] = c * m[p][k] - s * m[q][k], s * m[p][k] + c * m[q][k]
                for k in range(n):
                    v[k][p], v[k][q] = c * v[k][p] - s * v[k][q], s * v[k][p] + c * v[k][q]
    o = sorted(range(n), key=lambda i: m[i][i])
    sg = [1 if x >= 0 else -1 for x in uf('sign', n, Arr((n,), [m[i][i] for i in o]))]
    vecs = []
    for i, k in enumerate(o):
        col = [v[r][k] for r in range(n)]
        big = max(col, key=abs)
        f = sg[i] * (1 if big > 0 else -1)
        vecs.append([f * u for u in col])
    return Arr((n,), [m[i][i] for i in o]), Arr((n, n), [vecs[j][i] for i in range(n) for j in range(n)])


def tridiag(d, e):
    return add(diag(d), add(diag(e, 1), diag(e, -1)))


def uf_elem(name):
    return lift(lambda *a: hashed(name + '|' + '|'.join(canon(x) for x in a), 1)[0])


def _eigh(x, *a, **k):
    if a or set(k) - {'check_finite', 'overwrite_a'}:
        raise NotEval('eigh options')
    return eig(x)


def _sort(x, axis=-1):
    a = arr(x)
    if len(a.shape) != 1:
        raise NotEval('sort')
    return Arr(a.shape, sorted(a.data, key=lambda v: (v.real, v.imag) if isinstance(v, complex) else (v, 0)))


def _qr(a, mode=None):
    """Gram-Schmidt, with arbitrary signs (phases) of the columns"""
    a = arr(a)
    m, n = a.shape
    if m < n or m > n and mode not in ('economic', 'reduced'):
        return Arr((m, m), uf('qr.q', m * m, a)), Arr((m, n), uf('qr.r', m * n, a))
    cols = [[a.data[i * n + j] for i in range(m)] for j in range(n)]
    cx = any(isinstance(v, complex) for v in a.data)
    ph = uf('phase', n, a)
    q, r = [], [[0.0] * n for _ in range(n)]
    for j in range(n):
        u = list(cols[j])
        for i in range(j):
            c = sum((x.conjugate() if cx else x) * y for x, y in zip(q[i], cols[j]))
            r[i][j] = c
            u = [y - c * x for x, y in zip(q[i], u)]
        f = math.sqrt(sum(abs(x) ** 2 for x in u))
        if f < 1e-12:
            raise NotEval('rank deficient')
        f = f * (cmath.exp(3j * ph[j]) if cx else (1 if ph[j] > 0 else -1))
        r[j][j] = f
        q.append([x / f for x in u])
    return Arr((m, n), [q[j][i] for i in range(m) for j in range(n)]), Arr((n, n), [v for row in r for v in row])


def _identity(x, *a, **k):
    return x if not isinstance(x, (tuple, list)) else arr(x)


def _searchsorted(x, v, side='left', sorter=None):
    import bisect
    if sorter is not None or isinstance(v, (Arr, tuple)):
        raise NotEval('searchsorted')
    return (bisect.bisect_left if side == 'left' else bisect.bisect_right)(list(arr(x).data), v)


def _where(c, *ab):
    if not ab and isinstance(c, Arr) and c.shape:
        return F['nonzero'](c)
    if len(ab) != 2:
        raise NotEval('where')
    return lift(lambda c, a, b: a if c else b)(c, *ab)


def _rep(x, n=None, axis=None, repeats=None):
    a = arr(x)
    n = repeats if n is None else n
    n = out(arr(n)) if not isinstance(n, int) else n
    if isinstance(n, Arr) and axis is None and len(n.data) == len(a.data):
        r = [v for v, k in zip(a.data, n.data) for _ in range(int(k))]
        return Arr((len(r),), r)
    if isinstance(n, Arr) and len(n.data) == 1:
        n = n.data[0]
    if not isinstance(n, int):
        raise NotEval('repeat')
    if axis is None:
        return Arr((len(a.data) * n,), [v for v in a.data for _ in range(n)])
    k = a.shape[axis]
    return index(a, tuple([slice(None)] * (axis % len(a.shape)) + [Arr((k * n,), [q for q in range(k) for _ in range(n)])]))


def _unique(x, return_index=False, return_inverse=False, return_counts=False, **k):
    if k:
        raise NotEval('unique options')
    d = list(arr(x).data)
    u = sorted(set(d))
    v = Arr((len(u),), u)
    res = (v,)
    if return_index:
        res += (Arr((len(u),), [d.index(z) for z in u]),)
    if return_inverse:
        res += (Arr((len(d),), [u.index(z) for z in d]),)
    if return_counts:
        res += (Arr((len(u),), [d.count(z) for z in u]),)
    return res if len(res) > 1 else v


def _logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if axis is not None or keepdims or return_sign:
        raise NotEval('logsumexp options')
    a = arr(a)
    b = arr(b) if b is not None else Arr((), [1.0])
    s = bshape(a.shape, b.shape)
    x, w = broadcast(a, s), broadcast(b, s)
    m = max([u for u in x if u < math.inf] or [0.0])
    t = sum(c * math.exp(u - m) for u, c in zip(x, w))
    return m + math.log(t) if t > 0 else -math.inf if t == 0 else math.nan


def _ediff1d(x, to_end=None, to_begin=None):
    d = arr(x).data
    r = (list(arr(to_begin).data) if to_begin is not None else []) + [b - a for a, b in zip(d, d[1:])] + (list(arr(to_end).data) if to_end is not None else [])
    return Arr((len(r),), r)


def _tile(x, n):
    a = arr(x)
    n = (n,) if isinstance(n, int) else tuple(n) if isinstance(n, (tuple, list)) else tuple(arr(n).data)
    d = max(len(n), len(a.shape))
    n = (1,) * (d - len(n)) + n
    a = Arr((1,) * (d - len(a.shape)) + a.shape, a.data)
    for ax, k in enumerate(n):
        if k != 1:
            m = a.shape[ax]
            a = index(a, tuple([slice(None)] * ax + [Arr((k * m,), list(range(m)) * k)]))
    return a


def jacobi_poly(n, a, b, x):
    """value of the Jacobi polynomial of degree n"""
    n = int(n)
    p0, p1 = 1.0, (a + 1) + (a + b + 2) * (x - 1) / 2
    if n == 0:
        return p0
    for k in range(2, n + 1):
        c = 2 * k + a + b
        p0, p1 = p1, ((c - 1) * (c * (c - 2) * x + a * a - b * b) * p1 - 2 * (k + a - 1) * (k + b - 1) * c * p0) / (2 * k * (k + a + b) * (c - 2))
    return p1


def isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    return lift(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)))(a, b)


def svd(x, full_matrices=True, compute_uv=True, **k):
    a = arr(x)
    if len(a.shape) != 2 or not a.data or any(isinstance(v, complex) for v in a.data):
        raise NotEval('svd')
    m, n = a.shape
    t = m < n
    if t:
        a = transpose(a)
        m, n = n, m
    e, v = jacobi(dot(transpose(a), a))
    e = [math.sqrt(max(u, 0.0)) for u in reversed(e.data)]
    s = Arr((n,), e)
    if not compute_uv:
        return s
    v = index(v, (slice(None), slice(None, None, -1)))
    if (full_matrices and m != n) or e[-1] < 1e-7 * max(e[0], 1e-300):
        raise NotEval('svd of a rank deficient or rectangular matrix')
    u = div(dot(a, v), s)
    return (v, s, transpose(u)) if t else (u, s, transpose(v))


def matrix_rank(x, *a, **k):
    x = arr(x)
    if len(x.shape) != 2:
        raise NotEval('rank')
    s = svd(x, compute_uv=False).data
    return sum(1 for u in s if u > 1e-7 * max(s[0], 1e-300))


def slogdet(x):
    d = det(x)
    return (d / abs(d) if d else 0.0, math.log(abs(d)) if d else -math.inf)


def _range(*a):
    return arange(*[int(x) for x in a])


F = dict(ELEM)
F.update(ELEM2)
F.update(
    sum=lambda x, axis=None, keepdims=False, **k: reduce_axis(x, axis, sum, keepdims),
    prod=lambda x, axis=None, keepdims=False, **k: reduce_axis(x, axis, _prod, keepdims),
    mean=lambda x, axis=None, keepdims=False: reduce_axis(x, axis, lambda v: sum(v) / len(v), keepdims),
    max=lambda *x, axis=None: reduce_axis(x[0] if len(x) == 1 else list(x), axis, max), min=lambda *x, axis=None: reduce_axis(x[0] if len(x) == 1 else list(x), axis, min),
    amax=lambda x, axis=None: reduce_axis(x, axis, max), amin=lambda x, axis=None: reduce_axis(x, axis, min),
    all=lambda x, axis=None: reduce_axis(x, axis, all), any=lambda x, axis=None: reduce_axis(x, axis, any),
    count_nonzero=lambda x, axis=None: reduce_axis(x, axis, lambda v: sum(1 for u in v if u)),
    cumsum=lambda x, axis=None: cumulate(x, axis, lambda a, b: a + b), cumprod=lambda x, axis=None: cumulate(x, axis, lambda a, b: a * b),
    dot=dot, matmul=dot, transpose=transpose, outer=lambda a, b: mul(column(a), Arr((1, len(arr(b).data)), arr(b).data)), inner=dot, vdot=dot,
    diag=diag, diagonal=lambda x: diag(x), trace=lambda x: sum(diag(x).data), eye=lambda n, m=None, **k: eye(n, m), zeros=lambda s, *d, **k: full(s, False if isbool(d, k) else 0.0), ones=lambda s, *d, **k: full(s, True if isbool(d, k) else 1.0),
    empty=lambda s, **k: full(s, 0.0), full=lambda s, v, *d, **k: full(s, bool(v) if isbool(d, k) else v), zeros_like=lambda x, **k: full(arr(x).shape, False if isbool((), k) else 0.0), ones_like=lambda x, **k: full(arr(x).shape, True if isbool((), k) else 1.0),
    arange=arange, range=_range, linspace=linspace, det=det, inv=lambda x: solve(x, eye(square(x).shape[0])), solve=lambda a, b, **k: solve(a, b), norm=norm,
    hstack=lambda xs: join(xs, 0 if all(len(arr(x).shape) < 2 for x in xs) else 1), vstack=lambda xs: join([atleast_2d(x) for x in xs], 0),
    column_stack=lambda xs: join([column(x) for x in xs], 1), concatenate=lambda xs, axis=0: join(xs, axis), stack=lambda xs: arr(list(xs)), block=block, block_diag=lambda xs, **k: block_diag(xs),
    asarray=_identity, array=_identity, identity=_identity, ascontiguousarray=_identity, copy=_identity, asanyarray=_identity,
    atleast_1d=lambda x: arr(x) if arr(x).shape else Arr((1,), arr(x).data), atleast_2d=atleast_2d, reshape=reshape, ravel=lambda x: reshape(x, -1), flatten=lambda x: reshape(x, -1),
    repeat=_rep, where=_where, sort=_sort, sorted=_sort, flip=lambda x: index(arr(x), slice(None, None, -1)), expand_dims=lambda x, a: index(arr(x), (None,) if a == 0 else (slice(None), None)),
    diff=lambda x: Arr((len(x.data) - 1,), [b - a for a, b in zip(x.data, x.data[1:])]),
    eig=_eigh, eigh=_eigh, eigvals=lambda x, **k: _eigh(x, **k)[0], eigvalsh=lambda x, **k: _eigh(x, **k)[0], eigvalsh_tridiagonal=lambda d, e, **k: _eigh(tridiag(d, e), **k)[0],
    eigh_tridiagonal=lambda d, e, **k: _eigh(tridiag(d, e), **k), tridiag=tridiag, qr=_qr, toarray=lambda x: x, todense=lambda x: x, tocsr=lambda x: x,
    leggauss=lambda n: tuple(Arr((n,), uf('leggauss%d' % i, n, n)) for i in (0, 1)), eval_jacobi=lift(jacobi_poly), airy=lambda x: tuple(uf_elem('airy%d' % i)(x) for i in range(4)), ix_=_ix,
    broadcast_to=lambda x, s: out(Arr(shape_arg(s), broadcast(arr(x), shape_arg(s)))), square_norm=lambda x: sum(abs(v) ** 2 for v in arr(x).data),
    abs=ELEM['abs'], len=lambda x: len(x.c) - 1 if isinstance(x, Poly) else len(x) if isinstance(x, (tuple, list)) else arr(x).shape[0], tile=_tile, unique=_unique, ediff1d=_ediff1d, factorial=lift(lambda n: float(math.factorial(n))), replace=lambda x, a, b: x.replace(a, b) if isinstance(x, str) else _ne('replace'),
    size=lambda x: len(arr(x).data), shape=lambda x: arr(x).shape, ndim=lambda x: len(arr(x).shape), tuple=lambda *x: tuple(x),
)


def _einsum(spec, *xs, **k):
    spec = spec.replace(' ', '')
    if '->' not in spec or '.' in spec:
        raise NotEval('einsum')
    ins, o = spec.split('->')
    ins = ins.split(',')
    xs = [arr(x) for x in xs]
    dim = {}
    for s, x in zip(ins, xs):
        if len(s) != len(x.shape):
            raise NotEval('einsum')
        for c, n in zip(s, x.shape):
            if dim.setdefault(c, n) != n:
                raise NumErr('einsum')
    rest = [c for c in dim if c not in o]
    sts = [strides(x.shape) for x in xs]
    res = []
    for ix in itertools.product(*[range(dim[c]) for c in o]):
        b = dict(zip(o, ix))
        tot = 0.0
        for jx in itertools.product(*[range(dim[c]) for c in rest]):
            b.update(zip(rest, jx))
            v = 1.0
            for s, x, st in zip(ins, xs, sts):
                v = v * x.data[sum(b[c] * q for c, q in zip(s, st))]
            tot = tot + v
        res.append(tot)
    return out(Arr([dim[c] for c in o], res))


def _triu(x, k=0):
    n, m = arr(x).shape
    p = [(i, j) for i in range(n) for j in range(m) if j - i >= k]
    return (Arr((len(p),), [i for i, _ in p]), Arr((len(p),), [j for _, j in p]))


def polyset(p, k, v):
    """p[k] = v: the coefficient of x**k"""
    if not isinstance(p, Poly) or not isinstance(k, int):
        raise NotEval('coefficient of a polynomial')
    c = list(p.c) if len(p.c) > k else [0.0] * (k + 1 - len(p.c)) + list(p.c)
    if k < 0:
        return p
    c[len(c) - 1 - k] = v
    return Poly(c)


def polysetc(p, i, v):
    """p.coeffs[i] = v"""
    if not isinstance(p, Poly):
        raise NotEval('coefficients of a polynomial')
    return Poly(list(update(Arr((len(p.c),), list(p.c)), i, v).data))


F.update(poly1d=lambda c, *a: c if isinstance(c, Poly) else Poly([arr(v).data[0] for v in (c if isinstance(c, (tuple, list)) else arr(c).data or arr(c).data)]),
         polyset=polyset, polysetc=polysetc,
         polycoef=lambda p: Arr((len(p.c),), p.c), polyorder=lambda p: len(p.c) - 1, deriv=lambda p, m=1: pderiv(p, m), polyval=lambda p, x: Poly(arr(p).data)(x) if not isinstance(p, Poly) else p(x),
         roots=lambda p: proots(p if isinstance(p, Poly) else Poly(arr(p).data)), clip=lambda x, lo, hi: lift(lambda u, a, b: min(max(u, a), b))(x, lo, hi), einsum=_einsum,
         triu_indices_from=_triu)
F.update(isclose=isclose, allclose=lambda *a, **k: all(arr(isclose(*a, **k)).data), array_equal=lambda a, b: arr(a).shape == arr(b).shape and arr(a).data == arr(b).data,
         svd=svd, matrix_rank=matrix_rank, slogdet=slogdet, item=lambda x: arr(x).data[0] if len(arr(x).data) == 1 else _ne('item'))


def _vec(x):
    x = arr(list(x) if isinstance(x, (set, frozenset)) else x)
    return list(x.data)


def _delete(x, i, axis=None):
    x = arr(x)
    if axis is None and len(x.shape) == 1:
        axis, d = 0, [int(k) for k in _vec(i)]
    elif axis is None:
        raise NotEval('delete')
    else:
        d = [int(k) for k in _vec(i)]
    n = x.shape[axis]
    if any(not -n <= k < n for k in d):
        raise NumErr('delete: index out of range')
    d = {k % n for k in d}
    keep = Arr((n - len(d),), [k for k in range(n) if k not in d])
    return index(x, (slice(None),) * axis + (keep,))


def _isin(a, b, assume_unique=False, invert=False):
    a, b = arr(a), set(_vec(b))
    return out(Arr(a.shape, [(v in b) != invert for v in a.data]))


def _sets(f):
    def g(a, b, assume_unique=False):
        r = sorted(f(set(_vec(a)), set(_vec(b))))
        return Arr((len(r),), r)
    return g


def _arg(pick):
    def f(x, axis=None):
        x = arr(x)
        if axis is not None and len(x.shape) != 1:
            raise NotEval('argmax')
        return x.data.index(pick(x.data))
    return f


def _cholesky(A, lower=None, **k):
    A = square(A)
    n = A.shape[0]
    L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            v = A.data[i * n + j] - sum(L[i][m] * complex(L[j][m]).conjugate() for m in range(j))
            v = v.real if isinstance(v, complex) and abs(v.imag) < 1e-14 else v
            if i == j:
                if isinstance(v, complex) or v <= 0:
                    raise NotEval('cholesky')
                L[i][i] = math.sqrt(v)
            else:
                L[i][j] = v / L[j][j]
    return Arr((n, n), [x for r in L for x in r])


F.update(delete=_delete, isin=_isin, in1d=_isin, setdiff1d=_sets(lambda a, b: a - b), union1d=_sets(lambda a, b: a | b), intersect1d=_sets(lambda a, b: a & b), setxor1d=_sets(lambda a, b: a ^ b),
         bisect_right=lambda x, v, *k: __import__('bisect').bisect_right(list(x.data if isinstance(x, Arr) else x), v, *k), bisect_left=lambda x, v, *k: __import__('bisect').bisect_left(list(x.data if isinstance(x, Arr) else x), v, *k),
         bisect=lambda x, v, *k: __import__('bisect').bisect_right(list(x.data if isinstance(x, Arr) else x), v, *k),
         searchsorted=_searchsorted,
         fromiter=lambda x, dtype=None, count=None: arr(tuple(x) if not isinstance(x, Arr) else x),
         flatnonzero=lambda x: (lambda r: Arr((len(r),), r))([i for i, v in enumerate(arr(x).data) if v]), append=lambda x, v, axis=None: join([Arr((len(_vec(x)),), _vec(x)), Arr((len(_vec(v)),), _vec(v))], 0),
         nonzero=lambda x: (F['flatnonzero'](x),) if len(arr(x).shape) == 1 else _ne('nonzero'), logical_not=lift(lambda v: not v), tolist=lambda x: x,
         argsort=lambda x, **k: (lambda d: Arr((len(d),), sorted(range(len(d)), key=lambda i: d[i])))(arr(x).data), roll=lambda x, k: (lambda d: Arr((len(d),), [d[(i - k) % len(d)] for i in range(len(d))]))(arr(x).data))
F.setdefault('argmax', _arg(max))
F.setdefault('argmin', _arg(min))


def _ne(x):
    raise NotEval(x)


F['range'] = _range
F['logsumexp'] = _logsumexp
F['xlogy'] = lift(lambda x, y: 0.0 if x == 0 and y == y else x * F['log'](y))
F['xlog1py'] = lift(lambda x, y: 0.0 if x == 0 and y == y else x * F['log1p'](y))
ALIAS = {'numpy.linalg.norm': 'norm', 'math.pi': 'pi'}
CONSTS = {'string.ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz', 'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.inf': math.inf, 'numpy.newaxis': None, 'numpy.e': math.e,
          **{'numpy.' + x: x for x in ('complex_', 'complex128', 'float_', 'float64', 'int_', 'int64')}}
LIBS = ('numpy', 'scipy', 'math', 'cmath', 'bisect')


class Draws:
    """values of the random atoms: (kind, parameters, shape) and a running number, permuted within each class"""

    def __init__(self, seed, perm=None):
        self.seed, self.perm, self.seen = seed, perm or {}, {}

    def atom(self, kind, params, shape, ident):
        key = '%s|%s|%r' % (kind, canon(tuple(params)), shape)
        lst = self.seen.setdefault(key, [])
        if ident in lst:
            i = lst.index(ident)
        else:
            i = len(lst)
            lst.append(ident)
        p = self.perm.get(key)
        if p is not None and i < len(p):
            i = p[i]
        lo, hi = dict(Z=(-2.0, 2.0), G=(0.2, 3.0), B=(0.05, 0.95), U=(0.02, 0.98)).get(kind, (0.1, 0.9))
        return out(Arr(shape, hashed('%s|%s|%d' % (self.seed, key, i), size_of(shape), lo, hi)))

    def perms(self):
        """the permutations of the atoms seen (at most a few thousand)"""
        ks = [k for k, v in self.seen.items() if len(v) > 1]
        n = 1
        for k in ks:
            n *= math.factorial(len(self.seen[k]))
        if n > 3000:
            return [{}]
        return [dict(zip(ks, c)) for c in itertools.product(*[list(itertools.permutations(range(len(self.seen[k])))) for k in ks])]


def law(draws, method, a, k, ident):
    """the value of a draw of RandomState as a function of standard atoms"""
    def get(i, name, default=None):
        return a[i] if i < len(a) else k.get(name, default)

    def shaped(*ps, size=None):
        s = bshape(*[arr(p).shape for p in ps]) if ps else ()
        if size is not None:
            z = shape_arg(size)
            return z
        return s
    if method in ('randn', 'standard_normal'):
        sh = shape_arg(tuple(a)) if method == 'randn' else shape_arg(get(0, 'size')) if get(0, 'size') is not None else ()
        return draws.atom('Z', (), sh, ident)
    if method == 'normal':
        m, s, sz = get(0, 'loc', 0.0), get(1, 'scale', 1.0), get(2, 'size')
        return add(m, mul(s, draws.atom('Z', (), shaped(m, s, size=sz), ident)))
    if method in ('gamma', 'standard_gamma'):
        s = get(1, 'scale', 1.0) if method == 'gamma' else 1.0
        sh, sz = get(0, 'shape'), get(2 if method == 'gamma' else 1, 'size')
        shp = shaped(sh, s, size=sz)
        return mul(s, draws.atom('G', (out(Arr(shp, broadcast(arr(sh), shp))),), shp, ident))
    if method == 'chisquare':
        d, sz = get(0, 'df'), get(1, 'size')
        shp = shaped(d, size=sz)
        return mul(2.0, draws.atom('G', (out(Arr(shp, broadcast(arr(div(d, 2.0)), shp))),), shp, ident))
    if method == 'exponential':
        s, sz = get(0, 'scale', 1.0), get(1, 'size')
        shp = shaped(s, size=sz)
        return mul(s, draws.atom('G', (full(shp, 1.0),), shp, ident))
    if method == 'beta':
        x, y, sz = get(0, 'a'), get(1, 'b'), get(2, 'size')
        shp = shaped(x, y, size=sz)
        return draws.atom('B', tuple(out(Arr(shp, broadcast(arr(v), shp))) for v in (x, y)), shp, ident)
    if method in ('rand', 'random_sample', 'random'):
        return draws.atom('U', (), shape_arg(tuple(a)) if method == 'rand' else shape_arg(get(0, 'size')) if get(0, 'size') is not None else (), ident)
    if method == 'uniform':
        lo, hi, sz = get(0, 'low', 0.0), get(1, 'high', 1.0), get(2, 'size')
        return add(lo, mul(sub(hi, lo), draws.atom('U', (), shaped(lo, hi, size=sz), ident)))
    raise NotEval('draw ' + method)


class Ev:
    """evaluation of a Term"""

    def __init__(self, env, draws=None, hook=None):
        self.env, self.draws, self.memo, self.hook = env, draws, {}, hook

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        try:
            v = self.ev(t)
        except RecursionError:
            raise NotEval('deep')
        except (TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError, AttributeError, KeyError) as e:
            raise NotEval('%s: %s' % (t.op, e))
        self.memo[t] = v
        return v

    def args(self, ts):
        a, k = [], {}
        for x in ts:
            if isinstance(x, Term) and x.op == 'kw':
                k[x.args[0]] = self(x.args[1]) if x.args[0] != 'dtype' or x.args[1].op != 'ext' else x.args[1].args[0]
            elif isinstance(x, Term) and x.op == 'star':
                a.extend(rows(self(x.args[0])))
            else:
                a.append(self(x))
        return a, k

    def ev(self, t):
        op, a = t.op, t.args
        if self.hook is not None:
            r = self.hook(self, t)
            if r is not NotImplemented:
                return r
        if op == 'const':
            v = a[0]
            if isinstance(v, str) and v.endswith('j'):
                try:
                    return complex(v)
                except ValueError:
                    pass
            return v
        if op == 'ext':
            if a[0] in CONSTS:
                return CONSTS[a[0]]
            raise NotEval('ext %s' % a[0])
        if op in BIN:
            x, y = self(a[0]), self(a[1])
            if isinstance(x, Poly) or isinstance(y, Poly):
                return pbin(op, x, y)
            if isinstance(x, str) and isinstance(y, str) and op == 'Add':
                return x + y
            return BIN[op](x, y)
        if op == 'comp':
            return self.comp(t)
        if op == 'USub' and isinstance(self(a[0]), Poly):
            return pbin('Mult', self(a[0]), -1.0)
        if op == 'USub':
            return ELEM['negative'](self(a[0]))
        if op == 'UAdd':
            return self(a[0])
        if op == 'Invert' or op == 'not':
            return ELEM['logical_not'](self(a[0]))
        if op == 'MatMult':
            return dot(self(a[0]), self(a[1]))
        if op == 'cmp':
            x, y = self(a[1]), self(a[2])
            if a[0] in ('Eq', 'NotEq') and (isinstance(x, str) or isinstance(y, str)):
                return (x == y) == (a[0] == 'Eq')
            return CMPS[a[0]](x, y)
        if op in ('tuple', 'list'):
            return tuple(self(x) for x in a)
        if op == 'slice':
            return slice(*[self(x) for x in a])
        if op == 'idx' and isinstance(self(a[0]), Poly):
            return self(a[0]).coef(self(a[1]))
        if op == 'idx':
            return getidx(self(a[0]), self(a[1]))
        if op == 'upd':
            return update(self(a[0]), self(a[1]), self(a[2]))
        if op == 'mask':
            return self(a[0])
        if op in ('bools', 'ints'):
            return Arr((len(a),), list(a))
        if op == 'dim':
            v, k = self(a[0]), a[1].args[0] if isinstance(a[1], Term) and a[1].op == 'const' else a[1]
            v = arr(v) if isinstance(v, (tuple, list)) else v
            if not isinstance(v, Arr) or not isinstance(k, int) or not 0 <= k < len(v.shape):
                raise NotEval('dim')
            return v.shape[k]
        if op in ('size', 'len', 'ndim', 'shape'):
            return F[op](self(a[0]))
        if op == 'attr':
            b = a[1].args[0] if isinstance(a[1], Term) else a[1]
            if b in ('real', 'imag'):
                return ELEM[b](self(a[0]))
            if b == 'T':
                return transpose(self(a[0]))
            if b in ('size', 'shape', 'ndim'):
                return F[b](self(a[0]))
            if b == 'dtype':
                return Dtype(self(a[0]))
            if b in ('kind', 'char') and isinstance(a[0], Term) and a[0].op == 'attr' and a[0].args[1] == 'dtype':
                return self(a[0]).kind
            if b == 'eps' and isinstance(a[0], Term) and a[0].op == 'call' and str(a[0].args[0]).endswith('finfo'):
                return 2.0 ** -52
            v = self(a[0])
            if isinstance(v, Poly):
                if b in ('roots', 'r'):
                    return proots(v)
                if b in ('order', 'o'):
                    return len(v.c) - 1
                if b in ('coef', 'coeffs', 'c', 'coefficients'):
                    return Arr((len(v.c),), v.c)
            raise NotEval('attr %s' % b)
        if op == 'call':
            name = a[0] if isinstance(a[0], str) else None
            if name is None:
                raise NotEval('call')
            if name in self.env:
                p, k = self.args(a[1:])
                return self.env[name](*p, **k)
            if name.startswith('user:') or '.random' in name:
                raise NotEval(name)
            short = name.split('.')[-1].split(':')[-1]
            if short == 'sum' and len(a) == 2:
                v = self(a[1])
                if isinstance(v, tuple) and any(isinstance(x, Poly) for x in v):
                    return padd_all(v)
            if short in F and (name.split('.')[0] in LIBS or '.' not in name):
                p, k = self.args(a[1:])
                return F[short](*p, **k)
            raise NotEval('call ' + name)
        if op == 'draw':
            if self.draws is None:
                raise NotEval('draw')
            p, k = self.args(a[-1].args if isinstance(a[-1], Term) and a[-1].op == 'args' else ())
            k = {x: y for x, y in k.items() if y is not None}
            while p and p[-1] is None:
                p.pop()
            return law(self.draws, a[0], p, k, ('t', t))
        if op == 'cat':
            res = []
            for x in a[1:]:
                if x.op == 'one':
                    res.append(self(x.args[0]))
                elif x.op == 'all':
                    res.extend(rows(self(x.args[0])))
                else:
                    raise NotEval('cat')
            return tuple(res)
        raise NotEval(op)


    def comp(self, t):
        """a comprehension with one generator: the element term at each position of the iterable"""
        elt, itv, own = t.args
        sites = [x for x in subterms(elt) if x.op == 'site' and x.args[0] == 'elem' and x not in self.env and own and x.args[1] in own]
        rng, start, n = None, 0, None
        if itv.op == 'call' and itv.args[0] == 'enumerate':
            start = self(itv.args[2]) if len(itv.args) > 2 else 0
            n = len(rows(self(itv.args[1])))
        elif itv.op == 'call' and itv.args[0] == 'zip':
            n = min(len(rows(self(x))) for x in itv.args[1:])
        else:
            v = self(itv)
            n = len(v) if isinstance(v, (tuple, list)) else len(rows(v))
            if itv.op == 'call' and itv.args[0] == 'range':
                rng = arr(v).data
        res = []
        for k in range(n):
            env = dict(self.env)
            for x in sites:
                env[x] = start + k if x.args[-1] == 'i' else rng[k] if rng is not None else k
            e = Ev(env, self.draws, self.hook)
            res.append(e(elt))
        return tuple(res)


class Spec:
    """evaluation of a documented formula: assignments and a final expression in python syntax"""
    OPS = {ast.Add: 'Add', ast.Sub: 'Sub', ast.Mult: 'Mult', ast.Div: 'Div', ast.Pow: 'Pow', ast.FloorDiv: 'FloorDiv', ast.Mod: 'Mod', ast.BitAnd: 'BitAnd', ast.BitOr: 'BitOr', ast.BitXor: 'BitXor'}

    def __init__(self, env, draws=None):
        self.env, self.draws, self.n = dict(env), draws, 0

    def run(self, src):
        body = ast.parse(src).body
        for s in body[:-1]:
            v = self.ev(s.value)
            self.assign(s.targets[0], v)
        return self.ev(body[-1].value)

    def assign(self, t, v):
        if isinstance(t, ast.Tuple):
            for x, y in zip(t.elts, rows(v)):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            self.env[t.value.id] = update(self.ev(t.value), self.index(t.slice), v)
        else:
            self.env[t.id] = v

    def index(self, n):
        if isinstance(n, ast.Tuple):
            return tuple(self.index(x) for x in n.elts)
        if isinstance(n, ast.Slice):
            return slice(*[self.ev(x) if x is not None else None for x in (n.lower, n.upper, n.step)])
        return self.ev(n)

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in self.env:
                return self.env[n.id]
            if n.id == 'pi':
                return math.pi
            raise KeyError(n.id)
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.MatMult):
                return dot(self.ev(n.left), self.ev(n.right))
            return BIN[self.OPS[type(n.op)]](self.ev(n.left), self.ev(n.right))
        if isinstance(n, ast.UnaryOp):
            return ELEM['negative'](self.ev(n.operand)) if isinstance(n.op, ast.USub) else ELEM['logical_not'](self.ev(n.operand))
        if isinstance(n, ast.Compare):
            return CMPS[type(n.ops[0]).__name__](self.ev(n.left), self.ev(n.comparators[0]))
        if isinstance(n, ast.IfExp):
            return self.ev(n.body) if self.ev(n.test) else self.ev(n.orelse)
        if isinstance(n, (ast.Tuple, ast.List)):
            return tuple(self.ev(x) for x in n.elts)
        if isinstance(n, ast.Subscript):
            return getidx(self.ev(n.value), self.index(n.slice))
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            return transpose(self.ev(n.value))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            g = n.generators[0]
            res = []
            for x in rows(self.ev(g.iter)):
                self.assign(g.target, x)
                if all(self.ev(c) for c in g.ifs):
                    res.append(self.ev(n.elt))
            return tuple(res)
        if isinstance(n, ast.Call):
            a = [self.ev(x) for x in n.args]
            k = {x.arg: self.ev(x.value) for x in n.keywords}
            f = n.func.id
            if f in self.env:
                return self.env[f](*a, **k)
            if f in ('Z', 'G', 'B', 'U'):
                self.n += 1
                if f == 'Z':
                    return self.draws.atom('Z', (), shape_arg(tuple(a)), ('s', self.n))
                if f == 'U':
                    return self.draws.atom('U', (), shape_arg(tuple(a)), ('s', self.n))
                shp = bshape(*[arr(x).shape for x in a[:2 if f == 'B' else 1]]) if not k else shape_arg(k['size'])
                return self.draws.atom(f, tuple(out(Arr(shp, broadcast(arr(x), shp))) for x in a), shp, ('s', self.n))
            return F[f](*a, **k)
        raise NotEval(type(n).__name__)


def close(a, b, tol=1e-6):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return a == b
    if isinstance(a, Poly) or isinstance(b, Poly):
        a, b = topoly(a).up(), topoly(b).up()
        n = max(len(a), len(b))
        a, b = a + [0.0] * (n - len(a)), b + [0.0] * (n - len(b))
    x, y = arr(a), arr(b)
    if x.shape != y.shape:
        return False
    for u, v in zip(x.data, y.data):
        if u == v:
            continue
        try:
            if math.isinf(u) or math.isinf(v):
                return False
        except TypeError:
            pass
        if not abs(u - v) <= tol * max(1.0, abs(u), abs(v)):
            return False
    return True


def regrouped(a, b):
    """as many standard variates, in arrays of other shapes"""
    for kind in ('Z', 'U'):
        k = [sorted(x for x, v in d.seen.items() if x.startswith(kind) for _ in v) for d in (a, b)]
        n = [sum(size_of(ast.literal_eval(x.rsplit('|', 1)[1])) for x in l) for l in k]
        if k[0] != k[1] and n[0] == n[1]:
            return True
    return False


def compare(term, spec, env, names, seed='0', hook=None, post=None, tol=1e-6):
    """True: equal at this point; False: different; NotEval text: undecided.
    env: {Term or library name: value} for the extracted term, names: {name: value} for the formula"""
    try:
        d0 = Draws(seed)
        if callable(spec):
            try:
                ref = spec(names)
            except (ArithmeticError, ValueError, TypeError, LookupError) as e:
                raise NotEval('the documented formula is not defined at the point: %s' % e)
        else:
            ref = Spec(names, d0).run(spec) if isinstance(spec, str) else spec
        d = Draws(seed)
        v = Ev(env, d, hook)(term)
        if post is not None:
            v, ref = post(v), post(ref)
        if close(v, ref, tol):
            return True
        for perm in d.perms()[1:]:
            v = Ev(env, Draws(seed, perm), hook)(term)
            if post is not None:
                v = post(v)
            if close(v, ref, tol):
                return True
        if isinstance(spec, str) and regrouped(d0, d):
            return 'the same variates are drawn in blocks of other shapes'
        return False
    except NotEval as e:
        return str(e) or 'not evaluable'
