"""Hash-consed terms (value numbering), canonical polynomial / rational forms and shape inference.

A term names the value an expression has at one point of the analysed program.  Terms are immutable and interned, so
that equality of terms is identity.  No term is ever evaluated: the only arithmetic done here is algebraic
normalisation of +, -, *, / and integer powers."""
from fractions import Fraction

_tab = {}


class Term:
    __slots__ = ('op', 'args', 'n', '_poly', '__weakref__')
    cnt = 0

    def __repr__(self):
        return show(self)


def T(op, *args):
    k = (op,) + tuple(('c', type(a).__name__, a) if not isinstance(a, Term) else a for a in args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        Term.cnt += 1
        t.n = Term.cnt
        t._poly = None
        _tab[k] = t
    return t


def C(v):
    return T('const', v)


def isconst(t):
    return t.op == 'const'


_BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'MatMult': '@'}


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if depth == 0:
        return '..'
    if t.op == 'const':
        return repr(t.args[0])
    if t.op in ('param', 'name'):
        return str(t.args[0])
    if t.op in _BIN and len(t.args) == 2:
        return '(%s %s %s)' % (show(t.args[0], depth - 1), _BIN[t.op], show(t.args[1], depth - 1))
    if t.op == 'idx':
        return '%s[%s]' % (show(t.args[0], depth - 1), show(t.args[1], depth - 1))
    if t.op == 'phi':
        return 'phi:' + str(t.args[-1])
    if t.op == 'tuple':
        return '(' + ', '.join(show(a, depth - 1) for a in t.args) + ')'
    if t.op == 'call':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, depth - 1) for a in t.args[1:]))
    return '%s<%s>' % (t.op, ', '.join(show(a, depth - 1) if isinstance(a, Term) else str(a)[:40] for a in t.args))


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen or not isinstance(x, Term):
            continue
        seen.add(x)
        stack.extend(a for a in x.args if isinstance(a, Term))
    return seen


def contains(t, x):
    return x in subterms(t)


def subst(t, m, memo=None):
    """Replace subterms by the mapping m."""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not any(isinstance(a, Term) for a in t.args):
        return t
    r = T(t.op, *[subst(a, m, memo) if isinstance(a, Term) else a for a in t.args])
    memo[t] = r
    return r


# ---------------------------------------------------------------- polynomials
# a polynomial: dict {monomial: Fraction}; a monomial: tuple of (term, exponent) sorted by term number
def _mono_mul(a, b):
    d = dict(a)
    for t, e in b:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda x: x[0].n))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + s * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


def ratfunc(t, memo=None):
    """(numerator, denominator) of a term read as a rational function of its opaque subterms."""
    if t._poly is not None:
        return t._poly
    r = _ratfunc(t)
    if len(r[0]) > 200 or len(r[1]) > 200:
        r = ({((t, 1),): Fraction(1)}, ONE)
    t._poly = r
    return r


def _ratfunc(t):
    op = t.op
    if op == 'const':
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)) and v == v and v not in (float('inf'), float('-inf')):
            f = Fraction(v).limit_denominator(10**12) if isinstance(v, float) else Fraction(v)
            return ({(): f} if f else {}), ONE
    elif op in ('Add', 'Sub'):
        (a, b), (c, d) = ratfunc(t.args[0]), ratfunc(t.args[1])
        s = 1 if op == 'Add' else -1
        if b == d:
            return padd(a, c, s), b
        return padd(pmul(a, d), pmul(c, b), s), pmul(b, d)
    elif op == 'Mult':
        (a, b), (c, d) = ratfunc(t.args[0]), ratfunc(t.args[1])
        return _cancel(pmul(a, c), pmul(b, d))
    elif op == 'Div':
        (a, b), (c, d) = ratfunc(t.args[0]), ratfunc(t.args[1])
        if c:
            return _cancel(pmul(a, d), pmul(b, c))
    elif op == 'USub':
        a, b = ratfunc(t.args[0])
        return {m: -c for m, c in a.items()}, b
    elif op == 'UAdd':
        return ratfunc(t.args[0])
    elif op == 'Pow':
        e = t.args[1]
        if e.op == 'const' and isinstance(e.args[0], (int, float)) and float(e.args[0]).is_integer() and abs(e.args[0]) <= 4:
            n = int(e.args[0])
            a, b = ratfunc(t.args[0])
            if n < 0:
                a, b, n = b, a, -n
            if a or n == 0:
                p, q = ONE, ONE
                for _ in range(n):
                    p, q = pmul(p, a), pmul(q, b)
                return p, q
    elif op == 'call' and t.args[0] in ('float', 'int~', 'np.asarray', 'np.array', 'np.float64') and len(t.args) == 2 and isinstance(t.args[1], Term):
        return ratfunc(t.args[1])
    return {((t, 1),): Fraction(1)}, ONE


def _cancel(a, b):
    """cancel common monomial factors and constants"""
    if not a:
        return {}, ONE
    common = None
    for p in (a, b):
        for m in p:
            d = dict(m)
            common = d if common is None else {t: min(e, d[t]) for t, e in common.items() if t in d}
            if not common:
                break
    if common:
        inv = tuple((t, -e) for t, e in common.items())
        a = {_mono_mul(m, inv): c for m, c in a.items()}
        b = {_mono_mul(m, inv): c for m, c in b.items()}
    if len(b) == 1 and () in b:
        c = b[()]
        a = {m: x / c for m, x in a.items()}
        b = ONE
    return a, b


def rat_equal(s, t):
    (a, b), (c, d) = (ratfunc(x) if isinstance(x, Term) else x for x in (s, t))
    return pmul(a, d) == pmul(c, b)


def poly_of(t):
    """polynomial of t, or None if t has a non-trivial denominator"""
    a, b = ratfunc(t)
    return a if b == ONE else None


def lin_key(p):
    """canonical key of a polynomial up to a non-zero factor, split in (key, scale, const): p = scale * key + const"""
    const = p.get((), Fraction(0))
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda x: tuple((t.n, e) for t, e in x[0]))
    if not items:
        return None, None, const
    s = items[0][1]
    return tuple((m, c / s) for m, c in items), s, const
