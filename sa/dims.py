"""Comparison of length terms with integer division: case split over the residues of the parameters."""
from fractions import Fraction
from itertools import product
from math import floor
from .terms import T, C, Term, subterms, poly_of, ratfunc, padd, pmul, ONE
from .domain import path_of

CMP = {'Eq': lambda x: x == 0, 'NotEq': lambda x: x != 0, 'Lt': lambda x: x < 0, 'LtE': lambda x: x <= 0, 'Gt': lambda x: x > 0, 'GtE': lambda x: x >= 0}


def modulus(t):
    if t.op in ('FloorDiv', 'Mod') and t.args[1].op == 'const' and isinstance(t.args[1].args[0], int) and not isinstance(t.args[1].args[0], bool) and t.args[1].args[0] > 1:
        return t.args[1].args[0]
    return None


def pol(t, sub, memo):
    """polynomial of t under the substitution sub {atom: polynomial}; None if an integer division stays undecided"""
    if t in memo:
        return memo[t]
    memo[t] = r = pol1(t, sub, memo)
    return r


def pol1(t, sub, memo):
    if t in sub:
        return sub[t]
    op = t.op
    if op in ('Add', 'Sub', 'Mult'):
        a, b = pol(t.args[0], sub, memo), pol(t.args[1], sub, memo)
        if a is None or b is None:
            return None
        return pmul(a, b) if op == 'Mult' else padd(a, b, 1 if op == 'Add' else -1)
    if op == 'USub':
        a = pol(t.args[0], sub, memo)
        return None if a is None else {m: -c for m, c in a.items()}
    m = modulus(t)
    if m is not None:
        a = pol(t.args[0], sub, memo)
        if a is None or any(c.denominator != 1 for c in a.values()):
            return None
        if any(k != () and c % m for k, c in a.items()):
            return None
        q = {k: c / m for k, c in a.items() if k != ()}
        c0 = a.get((), Fraction(0))
        f = Fraction(floor(c0 / m))
        if op == 'Mod':
            d = c0 - f * m
            return {(): d} if d else {}
        if f:
            q[()] = f
        return q
    if op == 'call' and t.args[0] == 'int' and len(t.args) == 2:
        a = pol(t.args[1], sub, memo)
        return a if a is not None and all(c.denominator == 1 for c in a.values()) else None
    if op == 'Div':
        a, b = pol(t.args[0], sub, memo), pol(t.args[1], sub, memo)
        if a is not None and b is not None and len(b) == 1 and () in b:
            return {m: c / b[()] for m, c in a.items()}
    p = poly_of(t)
    return p


def atoms_of(t, out):
    """the symbols under integer divisions, and their moduli"""
    for x in subterms(t):
        m = modulus(x)
        if m is not None:
            p = poly_of(x.args[0])
            for mono in p or ():
                for a, _ in mono:
                    if modulus(a) is None:
                        out.setdefault(a, set()).add(m)
                    else:
                        for y in subterms(a):
                            if y.op in ('param', 'dim'):
                                out.setdefault(y, set()).add(m * modulus(a))


def cases(st, terms):
    """[(description, substitution)]: the residue classes compatible with the conditions on the path"""
    rel = {}
    conds = [(s[4], s[2]) for s in path_of(st) if len(s) > 4 and isinstance(s[4], Term)]
    for t in terms:
        atoms_of(t, rel)
    if not rel:
        yield '', {}
        return
    for t, _ in conds:
        o = {}
        atoms_of(t, o)
        for a in o:
            if a in rel:
                rel[a] |= o[a]
    atoms = sorted(rel, key=lambda a: a.n)
    mods = []
    for a in atoms:
        m = 1
        for k in rel[a]:
            m *= k
        mods.append(m)
    n = 1
    for m in mods:
        n *= m
    if n > 64:
        yield '', {}
        return
    for rs in product(*[range(m) for m in mods]):
        sub = {}
        for a, m, k in zip(atoms, mods, rs):
            p = {((T('quot', a, m), 1),): Fraction(m)}
            if k:
                p[()] = Fraction(k)
            sub[a] = p
        memo, ok = {}, True
        for t, val in conds:
            neg = False
            while t.op == 'not':
                t, neg = t.args[0], not neg
            if t.op == 'cmp' and t.args[0] in CMP:
                a, b = pol(t.args[1], sub, memo), pol(t.args[2], sub, memo)
            elif modulus(t) is not None:        # truth value of x % m
                a, b = pol(t, sub, memo), {}
            else:
                continue
            if a is None or b is None:
                continue
            d = padd(a, b, -1)
            if all(k == () for k in d):
                h = (CMP[t.args[0]] if t.op == 'cmp' else CMP['NotEq'])(d.get((), 0))
                if h != (val != neg):
                    ok = False
                    break
        if ok:
            yield ', '.join('%s %% %d == %d' % (a, m, k) for a, m, k in zip([x.args[0] for x in atoms], mods, rs)), sub


def same(p, st, a, b):
    """True / False / None: are two lengths equal for all values of the parameters on the path? with the residue class where not"""
    if a is b or p.cmp_terms(st, 'Eq', a, b) is True:
        return True, ''
    out = True
    for what, sub in cases(st, [a, b]):
        memo = {}
        x, y = pol(a, sub, memo), pol(b, sub, memo)
        if x is None or y is None:
            out = None
            continue
        if x != y:
            return False, what
    return out, ''
