"""Partitioned constructor arguments. For every kernel representation of a finite DPP (and for the validators themselves) the
constructor is followed under the assumption that one requirement fails - asymmetry, not square, not a projection, eigenvalues
below or above their range, eigenvectors not orthonormal, zonotope matrix without full row rank, likelihood function not callable,
data of a wrong shape, unknown kernel type, missing representation: every feasible exit must be a raise of ValueError. Under the
assumption that all requirements hold, boundary values and rounding-sized deviations included, a normal exit must remain."""
from sa.sweep import freeze
from sa.drive import FD, REPS
from sa.absval import num, arr
from sa import domain
from sa.sweep import finding
from sa.domain import run_dom
from sa.absval import CLOSE
from sa.terms import subterms, show, Term
from checks.c18 import judge as judge18, out, inn, q

LEVEL = 'other'
RULE = 'an obligation is one exit of the constructor (or validator) with one requirement violated, or one call with all requirements met'
U = 'dppy.utils.'
N2, NP = 'arr:N,N', 'arr:N,P'
GOOD = num(0.1, 0.9)
EV_BAD = {'K': [(-10, -1e-4), (1 + 1e-4, 10), (-1e-6, -1e-7), (1 + 1e-7, 1 + 1e-6)], 'L': [(-10, -1e-4), (-1e-6, -1e-7)],
          'P': [(1e-4, 0.49), (0.5, 0.5), (0.51, 1 - 1e-4), (1 + 1e-4, 10), (-10, -1e-4)]}
EV_OK = {'K': [(0, 0), (1, 1), (0.1, 0.9), (-1e-10, -1e-12), (1, 1 + 1e-10)], 'L': [(0, 0), (1, 1), (0.1, 0.9), (2, 1e6), (-1e-10, -1e-12)],
         'P': [(0, 0), (1, 1), (-1e-10, -1e-12), (1, 1 + 1e-10), (1 - 1e-10, 1)]}


def fd(rep, proj, **over):
    kt, dom = REPS[rep]
    return freeze(dict({'kernel_type': q(kt), 'projection': q(proj), rep: dom}, **over))


def table():
    for rep in 'KL':
        for pr in (False, True):
            good = [('symmetric', rep)] + ([('projection', rep)] if pr else [])
            yield out('obj', FD, fd(rep, pr), preds=[('asymmetric', rep)])
            yield out('obj', FD, fd(rep, pr, **{rep: NP}), preds=[('differ', 'N P')])
            yield out('obj', FD, fd(rep, pr, **{rep: 'arr:N'}))
            yield inn('obj', FD, fd(rep, pr), preds=good)
        yield out('obj', FD, fd(rep, True), preds=[('not_projection', rep)])
        ed = rep + '_eig_dec'
        for pr in (False, True):
            k = 'P' if pr else rep
            good = [('orthonormal', ed + '.vecs')]
            oks = [num(*c) for c in EV_OK[k]]
            for bad in EV_BAD[k]:
                yield out('obj', FD, fd(ed, pr), params=[(ed + '.vals', arr(num(*bad), *oks[:2]))], preds=good)
            for ok in oks:
                yield inn('obj', FD, fd(ed, pr), params=[(ed + '.vals', arr(ok))], preds=good)
            yield inn('obj', FD, fd(ed, pr), params=[(ed + '.vals', arr(*oks))], preds=good)
            yield out('obj', FD, fd(ed, pr), params=[(ed + '.vals', arr(*oks))], preds=[('not_orthonormal', ed + '.vecs')])
    for pr in (True, False):
        yield out('obj', FD, fd('A_zono', pr), preds=[('rank_deficient', 'A_zono')])
        yield out('obj', FD, fd('A_zono', pr, A_zono='arr:M,P'), preds=[('taller', 'M P')])
        yield inn('obj', FD, fd('A_zono', pr, A_zono='arr:M,P'), preds=[('full_rank', 'A_zono'), ('wider', 'M P')])
        yield inn('obj', FD, fd('L_eval_X_data', pr))
        for d in ('float', 'str', 'arr:N,N'):
            yield out('obj', FD, fd('L_eval_X_data', pr, L_eval_X_data=pair(d, 'arr:N,D')))
        for d in ('arr:N', 'arr:N,D,E'):
            yield out('obj', FD, fd('L_eval_X_data', pr, L_eval_X_data=pair('fn', d)))
        yield out('obj', FD, fd('L_eval_X_data', pr, L_eval_X_data=pair('fn', 'arr:0,D')))
        yield out('obj', FD, fd('L_eval_X_data', pr, L_eval_X_data=pair('fn', 'arr:N,0')))
        yield inn('obj', FD, fd('L_gram_factor', pr))
    # the arguments as a whole
    for kt in ('correlation', 'likelihood'):
        yield out('obj', FD, freeze(dict(kernel_type=q(kt), projection=q(False))))
        yield out('obj', FD, freeze(dict(kernel_type=q(kt), projection=q(True))))
        for v in ('int', 'str', 'none', 'float'):
            yield out('obj', FD, freeze(dict(kernel_type=q(kt), projection=v, **{'K' if kt[0] == 'c' else 'L': N2})))
    for rep in REPS:
        for v in ('strx', 'none', 'int'):
            yield out('obj', FD, fd(rep, False, kernel_type=v))
        other = 'likelihood' if REPS[rep][0] == 'correlation' else 'correlation'
        yield out('obj', FD, fd(rep, False, kernel_type=q(other)))
    # two representations at once: each one is checked
    two = [('K', 'K_eig_dec', 'correlation'), ('L', 'L_eig_dec', 'likelihood'), ('K', 'L', 'correlation'), ('L_gram_factor', 'L', 'likelihood'), ('L_eval_X_data', 'L', 'likelihood')]
    for a, b, kt in two:
        sp = {a: REPS[a][1], b: REPS[b][1]}
        for m in (a, b):
            if m in 'KL':
                yield out('obj', FD, freeze(dict(kernel_type=q(kt), projection=q(False), **sp)), preds=[('asymmetric', m)])
            elif m.endswith('_eig_dec'):
                yield out('obj', FD, freeze(dict(kernel_type=q(kt), projection=q(False), **sp)), params=[(m + '.vals', arr(num(-10, -1e-4), GOOD))])
    # the validators
    a = 'array'
    for fn in ('is_square', 'is_symmetric', 'is_projection', 'is_orthonormal_columns', 'is_equal_to_O_or_1', 'is_in_01', 'is_geq_0', 'is_full_row_rank'):
        yield inn('fn', U + fn, (), freeze({a: 'none'}))
    for fn in ('is_square', 'is_symmetric', 'is_projection'):
        yield out('fn', U + fn, (), freeze({a: NP}), preds=[('differ', 'N P')])
        yield out('fn', U + fn, (), freeze({a: 'arr:N'}))
        yield out('fn', U + fn, (), freeze({a: 'arr:N,N,N'}))
    yield inn('fn', U + 'is_square', (), freeze({a: N2}))
    yield out('fn', U + 'is_symmetric', (), freeze({a: N2}), preds=[('asymmetric', a)])
    yield inn('fn', U + 'is_symmetric', (), freeze({a: N2}), preds=[('symmetric', a)])
    for ci in ('default', 'iarr:C'):
        sp = freeze({a: N2, 'col_idx': ci})
        yield out('fn', U + 'is_projection', (), sp, preds=[('not_projection', a)])
        yield inn('fn', U + 'is_projection', (), sp, preds=[('projection', a)])
        sp = freeze({a: 'arr:N,R', 'col_idx': ci})
        yield out('fn', U + 'is_orthonormal_columns', (), sp, preds=[('not_orthonormal', a)])
        yield inn('fn', U + 'is_orthonormal_columns', (), sp, preds=[('orthonormal', a)])
    for fn, k in (('is_equal_to_O_or_1', 'P'), ('is_in_01', 'K'), ('is_geq_0', 'L')):
        oks = [num(*c) for c in EV_OK[k]]
        sp = freeze({a: 'arr:N'})
        for bad in EV_BAD[k]:
            yield out('fn', U + fn, (), sp, params=[(a, arr(num(*bad)))])
            yield out('fn', U + fn, (), sp, params=[(a, arr(num(*bad), *oks))])
        for ok in oks:
            yield inn('fn', U + fn, (), sp, params=[(a, arr(ok))])
        yield inn('fn', U + fn, (), sp, params=[(a, arr(*oks))])
    yield out('fn', U + 'is_full_row_rank', (), freeze({a: 'arr:M,P'}), preds=[('rank_deficient', a)])
    yield out('fn', U + 'is_full_row_rank', (), freeze({a: 'arr:M,P'}), preds=[('taller', 'M P')])
    for w in ('wider', 'equal'):
        yield inn('fn', U + 'is_full_row_rank', (), freeze({a: 'arr:M,P'}), preds=[('full_rank', a), (w, 'M P')])


def pair(f, x):
    return 'pair:%s;%s' % (f, x)


def tasks(tier):
    for t, kind in table():
        yield ('part', t, kind)


EXTENT = {'asymmetric': 20, 'not_projection': 20, 'not_orthonormal': 5}


def evaldim(t, n):
    """a symbolic size when every dimension equals n, or None"""
    op, a = t.op, t.args
    if op == 'const':
        return a[0] if isinstance(a[0], (int, float)) else None
    if op in ('dim', 'len'):
        return n
    if op in ('min', 'max') or op == 'call' and str(a[0]).replace('numpy.', '') in ('min', 'max', 'minimum', 'maximum'):
        xs = list(a[1:] if op == 'call' else a)
        if len(xs) == 1 and xs[0].op == 'tuple':
            xs = list(xs[0].args)
        vs = [evaldim(x, n) for x in xs]
        return None if None in vs or not vs else (min if 'min' in str(a[0] if op == 'call' else op) else max)(vs)
    if op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Div') and len(a) == 2:
        x, y = evaldim(a[0], n), evaldim(a[1], n)
        if x is None or y is None or op in ('FloorDiv', 'Div') and not y:
            return None
        return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'FloorDiv': lambda: x // y, 'Div': lambda: x / y}[op]()
    return None


def coverage(r, t, lb):
    """the compared part of the matrix: at least its leading 20 (5) columns, with the usual tolerances"""
    doms, keep = [], domain.dom_of

    def spy(task):
        d = keep(task)
        doms.append(d[0])
        return d
    domain.dom_of = spy
    try:
        run_dom(r, t)
    finally:
        domain.dom_of = keep
    preds = {a: f for f, a in t[7] if f in EXTENT}
    name, fn = next(iter(preds.items()))
    want = EXTENT[fn]
    for x in list(doms[-1].memo):
        if x.op != 'call' or x.args[0] not in CLOSE or not any(y.op == 'param' and y.args[0] == name for y in subterms(x)):
            continue
        for k in x.args[1:]:
            if isinstance(k, Term) and k.op == 'kw' and k.args[0] in ('atol', 'rtol') and k.args[1].op == 'const' and isinstance(k.args[1].args[0], float) and k.args[1].args[0] > 1e-2:
                return 'the comparison uses the tolerance %s=%g' % (k.args[0], k.args[1].args[0])
        for y in x.args[1:3]:
            for sz in r.p.shape(y) or ():
                for n in (1,) * (fn != 'asymmetric') + (2, 3, 6, 10, 19, 25, 60):
                    v = evaldim(sz, n)
                    if v is not None and v < min(n, want):
                        return 'the comparison covers %s = %g rows or columns of a matrix of size %d' % (show(sz), v, n)
    return None


def judge(r, task, res):
    judge18(r, task, res)
    _, t, kind = task
    if kind == 'out' and t[1] == 'fn' and len(t) > 7 and any(f in EXTENT for f, _ in t[7]) and not any('col_idx' in k for k, v in t[4] if v != 'default'):
        w = coverage(r, t, res['label'])
        if w:
            res['findings'].append(finding('weak', '', t[2], w.split(' = ')[0], 'the validation misses wrong matrices: ' + w, res['label']))
