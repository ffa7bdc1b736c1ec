"""Shapes of the points of the continuous ensembles. Every full, banded and i.i.d. model, the Gibbs sampler of polynomial potentials and
the multivariate orthogonal polynomial sampler are followed with symbolic sizes; the shape of the returned array is derived as terms
(matrix products, block and sparse block diagonal matrices, strided slices, eigenvalue routines) and compared with the documented
shape, with a case split over the parity of the sizes. Along the way, the operands of the array operations the points are computed
from must have matching shapes (diagonals of tridiagonal models, factors of matrix products, targets and values of slice stores)."""
from sa import sweep
from sa.sweep import finding
from sa.domain import run_dom, dom_label, path_of
from sa.dims import same
from sa.terms import T, C, Term, show, subterms

LEVEL = 'other'
RULE = ('an obligation is one returning path of a sampler: the returned array has the documented shape, one is one array operation in the value returned: '
        'its operands have matching shapes')
MAX_STATES = 12
RM, BE, PP, MJ = 'dppy.random_matrices.', 'dppy.beta_ensembles.', 'dppy.beta_ensemble_polynomial_potential.', 'dppy.multivariate_jacobi_ope.'


def tasks(tier):
    rs = 'rng' if tier == 'quick' else None
    for t in sweep.fn_tasks(rs=rs):
        sp = dict(t[2])
        if t[1].startswith(RM) and 'random_state' in sp and ('size' in sp or 'N' in sp):
            size = 'size' if 'size' in sp else 'N'
            yield ('dom', 'fn', t[1], (), t[2], (('GtE', size, 2),)), ((size,),)
    last = {}
    for t in sweep.obj_tasks(rs=rs, fd=False):
        if not t[3] or not t[3][-1][0].startswith('sample'):
            continue
        m, sp = t[3][-1][0], dict(t[3][-1][1])
        if t[1].startswith(BE):
            if sp.get('size_N') != 'int':
                continue
            yield ('dom', 'obj', t[1], t[2], t[3], (('GtE', 'size_N', 2),)), (('size_N',),)
            again = (('GtE', 'size_N', 2), ('GtE', 's2.size_N', 2))
            yield ('dom', 'obj', t[1], t[2], t[3] + t[3], again), (('s2.size_N',),)
            if tier != 'quick':
                for o in last.get(t[1], ()):
                    yield ('dom', 'obj', t[1], t[2], o + t[3], again), (('s2.size_N',),)
            last.setdefault(t[1], []).append(t[3])
        elif t[1].startswith(PP) and m == 'sample_mcmc':
            N, g = 'N', 'nb_gibbs_passes'
            vals, lam = sp.get('return_chain_of_eig_vals') == 'c:True', sp.get('return_chain_of_lambda_max') == 'c:True'
            want = ((N, g),) if vals else ((g,),) if lam else ((N,),)
            yield ('dom', 'obj', t[1], t[2], t[3], (('GtE', 'N', 2), ('GtE', 'nb_gibbs_passes', 1))), want
        elif t[1].startswith(MJ):
            for d in (('Eq', 'dim:D', 1), ('GtE', 'dim:D', 2)):
                want = (('N', 'dim:D'),) if m == 'sample' else (('dim:D',),)
                yield ('dom', 'obj', t[1], t[2], t[3], (('GtE', 'N', 1), d)), want


RESOLVED = {'param', 'const', 'dim', 'Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'Mod', 'USub', 'UAdd', 'len'}


def plain(n):
    return all(x.op in RESOLVED and not (x.op == 'dim' and isinstance(x.args[0], Term)) for x in subterms(n))


def decide(p, st, s, wants):
    """(ok | bad | unknown, text)"""
    if s is None or s == 'rec':
        return 'unknown', 'shape unknown'
    res = []
    for w in wants:
        if len(w) != len(s):
            res.append(('bad', '%d dimensions' % len(s)))
            continue
        st_, txt = 'ok', ''
        for a, b in zip(s, w):
            r, where = same(p, st, a, b)
            if r is True:
                continue
            if r is False and plain(a):
                st_, txt = 'bad', '%s instead of %s%s' % (show(a, 8), show(b), ' when ' + where if where else '')
                break
            st_, txt = 'unknown', show(a, 8)
        res.append((st_, txt))
    for k in ('ok', 'unknown', 'bad'):
        for x in res:
            if x[0] == k:
                return x
    return 'unknown', ''


def known(s):
    return s is not None and s != 'rec'


def mismatches(p, st, t):
    """[(kind, what, bad?)] array operations below t with known shapes"""
    sh = p.shape
    one = lambda d: d.op == 'const' and d.args[0] == 1

    def eq(a, b, what):
        if one(a) or one(b) or a is b:
            return None
        r, where = same(p, st, a, b)
        if r is None or r is False and not (plain(a) and plain(b)):
            return None
        return (what + ': %s and %s' % (show(a, 8), show(b, 8)) + (' when ' + where if where else ''), r)

    for x in subterms(t):
        op = x.op
        if op in ('Add', 'Sub', 'Mult', 'Div', 'Pow') and len(x.args) == 2:
            s, u = sh(x.args[0]), sh(x.args[1])
            if known(s) and known(u):
                for a, b in zip(reversed(s), reversed(u)):
                    yield x, eq(a, b, 'operands of an elementwise operation')
        elif op == 'call' and x.args[0] in ('numpy.dot', 'numpy.matmul', 'meth:dot') and len(x.args) >= 3:
            s, u = sh(x.args[1]), sh(x.args[2])
            if known(s) and known(u) and s and u:
                yield x, eq(s[-1], u[-2] if len(u) > 1 else u[0], 'inner dimensions of a product')
        elif op == 'call' and x.args[0].endswith(('eigvalsh_tridiagonal', 'eigh_tridiagonal')) and len(x.args) >= 3:
            s, u = sh(x.args[1]), sh(x.args[2])
            if known(s) and known(u) and len(s) == len(u) == 1:
                yield x, eq(T('Sub', s[0], C(1)), u[0], 'off-diagonal of a tridiagonal model')
        elif op == 'call' and x.args[0].endswith(('.eigvalsh', '.eigvals', '.inv', '.eigh', '.eig')) and len(x.args) >= 2:
            s = sh(x.args[1])
            if known(s) and len(s) == 2:
                yield x, eq(s[0], s[1], 'square matrix')
        elif op == 'upd' and len(x.args) >= 3 and x.args[1].op in ('slice', 'tuple'):
            b, u = sh(x.args[0]), sh(x.args[2])
            if known(b) and known(u):
                w = p.shape_idx(b, x.args[1], sh)
                if known(w):
                    for a, c in zip(reversed(w), reversed(u)):
                        yield x, eq(a, c, 'target and value of a slice store')


def judge(r, task, res):
    t, wants = task
    wants = tuple(tuple(T('dim', x[4:]) if x.startswith('dim:') else T('param', x) for x in w) for w in wants)
    p = r.p
    lb = dom_label(t)
    res['label'] = lb
    rets = {}
    p.hooks['return'] = lambda p, fn, s, v: rets.setdefault(v.term, fn)
    states = p.max_states
    if t[2].startswith(PP):
        p.max_states = 2        # the shapes do not depend on the many degree cases
    try:
        runs = run_dom(r, t)
    finally:
        p.max_states = states
        p.hooks.pop('return', None)
    r.cache.clear()
    method = t[4][-1][0] if t[1] == 'obj' else ''
    entry = (t[2] + ('.' + method if method else '')).replace('dppy.', '')
    sp = dict(t[4][-1][1] if t[1] == 'obj' else t[4])
    mode = sp.get('haar_mode', '')
    doc = ' or '.join('(%s)' % ', '.join(show(x) for x in w) for w in wants)
    for run in runs:
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        if run.fail:
            res['notes'].append('not analysed: %s: %s' % (lb, run.fail))
            continue
        for st, v in run.rets:
            res['obligations'] += 1
            x = p.tm(st, v)
            fn = rets.get(v.term)
            where = p.where(fn.node, fn.mod) if fn is not None else ''
            name = fn.qual if fn is not None else entry
            d, txt = decide(p, st, p.shape(x), wants)
            if d == 'unknown':
                res['notes'].append('undecided shape %s: %s' % (txt[:80], lb))
                res['undecided'] = res.get('undecided', 0) + 1
            elif d == 'bad':
                res['findings'].append(finding('wrong-shape', where, entry, beta_of(st, t) + (':' + mode[2:].strip("'") if mode.startswith('c:') else ''), 'the returned points have shape (%s): %s; documented: %s' % (
                    ', '.join(show(y) for y in p.shape(x)), txt, doc), lb, ['path: %s' % show(s[4]) for s in path_of(st)[:6] if len(s) > 4 and isinstance(s[4], Term)]))
            seen = set()
            for y, m in mismatches(p, st, x):
                if m is None:
                    continue
                res['obligations'] += 1
                if not m[1] and m[0] not in seen:
                    seen.add(m[0])
                    res['findings'].append(finding('shape-mismatch', where, name, m[0].split(':')[0], m[0] + ' in ' + show(y)[:120], lb))


def beta_of(st, t):
    """the value of beta on the path"""
    for s in path_of(st):
        c = s[4] if len(s) > 4 else None
        if isinstance(c, Term) and c.op == 'cmp' and c.args[0] == 'Eq' and s[2] and c.args[1].op == 'param' and c.args[1].args[0] == 'beta' and c.args[2].op == 'const':
            return 'beta=%s' % c.args[2].args[0]
    for sp in (dict(t[3] or ()), dict(t[4]) if t[1] == 'fn' else {}):
        if str(sp.get('beta', '')).startswith('c:'):
            return 'beta=' + sp['beta'][2:]
    return 'beta'
