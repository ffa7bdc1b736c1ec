"""Length terms of samples. Every fixed-size entry (k-DPP samplers, projection samplers with a size, exchange chains, their
initialisation) is followed with a symbolic size >= 1. The number of items of the value it returns is derived as a term: the
shape of the array, the length of the list, and, where paths or loop iterations join, a property carried through the join (every
assigned candidate had the requested number of items when it was assigned). The term must equal the requested size under the
facts of the path: the shape is the size itself, or a guard len(sample) == size dominates the exit. Without a size, a projection
sampler must return as many items as the rank: a trace, the columns of an eigenvector factor or the rows of a feature matrix."""
from sa import sweep
from sa.sweep import finding, freeze
from sa.drive import FN, FD
from sa.domain import run_dom, dom_label, path_of
from sa.terms import T, C, Term, show, subterms, poly_of
from sa.lib import *

LEVEL = 'other'
RULE = 'an obligation is one returning path of a fixed-size sampler: the length of the returned sample equals the requested size (or rank)'
MAX_STATES = 12
X, M = 'dppy.exact_sampling.', 'dppy.mcmc_sampling.'
ASSUME = (('GtE', 'size', 1), ('GtE', 'dim:R', 1), ('GtE', 'dim:N', 1))
AGAIN = (('GtE', 's2.size', 1),) + ASSUME
SIZES = {1: T('param', 'size'), 2: T('param', 's2.size')}
NSEL = X + 'k_dpp_eig_vecs_selector'


def setup(r):
    p = r.p
    p.preds = {'size': lambda p, st, v: fixed(p, st, v, 0, r.want)}


def length(p, st, v, axis=0):
    """the number of items of a value, as a term"""
    s = p.shape(p.tm(st, v))
    if axis == 0:
        n = p.iter_len(st, v)
        return s[0] if n.op == 'len' and s and s != 'rec' else n
    return s[axis] if s and s != 'rec' and len(s) > axis else None


def fixed(p, st, v, axis, want):
    n = length(p, st, v, axis)
    return n is not None and p.cmp_terms(st, 'Eq', n, want) is True


def tasks(tier):
    rs = 'rng' if tier == 'quick' else None
    names = [n for n in FN if n.startswith(X + 'proj_dpp_sampler')] + [X + 'k_dpp_vfx_sampler', X + 'alpha_k_dpp_sampler', NSEL,
             M + 'initialize_AD_and_E_sampler', M + 'dpp_sampler_mcmc']
    for n in names:
        for t in sweep.fn_tasks(only=lambda x: x == n, rs=rs):
            sp = dict(t[2])
            if 'size' not in sp:
                continue
            if n.endswith('dpp_sampler_mcmc') and (sp.get('mode') != "c:'E'" or sp.get('s_init') in ('state',)):
                continue
            if sp['size'] == 'int':
                yield ('dom', 'fn', n, (), t[2], ASSUME), 'size'
            elif '.proj_' in n:
                yield ('dom', 'fn', n, (), t[2], ASSUME[1:]), 'rank'
    for t in sweep.obj_tasks(rs=rs, rest=False):
        m, sp = t[3][0]
        if m == 'sample_exact_k_dpp' or m == 'sample_mcmc_k_dpp':
            yield ('dom', 'obj', t[1], t[2], t[3], ASSUME), 'size'
            for pre in ('compute_K', 'compute_L'):
                if not pre[-1] == 'L' or dict(t[2])['kernel_type'] == "c:'likelihood'" or tier != 'quick':
                    yield ('dom', 'obj', t[1], t[2], ((pre, ()),) + t[3], AGAIN), 'size'
            if dict(t[3][0][1]).get('mode') not in ("c:'vfx'", "c:'alpha'") or tier != 'quick':
                yield ('dom', 'obj', t[1], t[2], t[3] + t[3], AGAIN), 'size'
        elif m == 'sample_exact' and sweep.is_proj(t[2]) and dict(t[2])['kernel_type'] == "c:'correlation'":
            yield ('dom', 'obj', t[1], t[2], t[3], ASSUME[1:]), 'rank'


RESOLVED = {'param', 'const', 'dim', 'Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'USub', 'UAdd', 'len', 'cmp', 'attr', 'tuple', 'idx', 'slice', 'mask'}
RANDLEN = {'numpy.unique', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.where', 'numpy.argwhere', 'set'}


def resolved(n):
    """the length speaks about arguments only"""
    return all(x.op in RESOLVED or x.op == 'call' and x.args[0] in ('numpy.rint', 'numpy.trace', 'identity', 'numpy.round', 'numpy.linalg.matrix_rank', 'numpy.sum')
               for x in subterms(n))


def random_length(n):
    """the length is that of a random selection, or itself drawn"""
    q = poly_of(n)
    if q and any(a.op == 'draw' for m in q for a, _ in m):
        return True
    for x in subterms(n):
        if (x.op == 'call' and x.args[0] in RANDLEN or x.op == 'mask') and any(y.op == 'draw' for y in subterms(x)):
            return True
    return False


def candidates(p, st, v):
    """the length terms a joined value may have: the operands of the join, empty initial values aside"""
    out, seen = [], set()

    def go(t, depth):
        if t in seen or depth > 6:
            return
        seen.add(t)
        if t.op == 'phi':
            for o in p.phis.get(t, ()):
                go(o, depth + 1)
            return
        s = p.shape(t)
        if random_length(t) and (not s or s == 'rec' or phis_in(s[0])):
            out.append(T('len', t))     # a selected set: its size is random
        elif s and s != 'rec':
            out.append(s[0])
    go(p.tm(st, v), 0)
    return out


def phis_in(n):
    return any(x.op == 'phi' for x in subterms(n))


def decide(p, st, v, axis, want):
    """('ok' | 'bad' | 'unknown', length term)"""
    n = length(p, st, v, axis)
    if axis == 0 and st.facts.get(('pred', 'size', v.term)):
        return 'ok', v.term
    if n is not None:
        r = p.cmp_terms(st, 'Eq', n, want)
        if r is True:
            return 'ok', n
        if r is False:
            return 'bad', n
        if not phis_in(n) and (resolved(n) or random_length(n)):
            return 'bad', n
        if not phis_in(n):
            return 'unknown', n
    elif axis:
        return 'unknown', None
    worst = ('unknown', n)
    for c in candidates(p, st, v) + ([n] if n is not None and random_length(n) else []):
        if phis_in(c) and not random_length(c) or c is C(0):
            continue
        r = p.cmp_terms(st, 'Eq', c, want)
        if r is False or r is None and (resolved(c) or random_length(c)):
            worst = ('bad', c)
    return worst


RANKCALLS = {'numpy.rint', 'numpy.trace', 'numpy.round', 'numpy.linalg.matrix_rank', 'identity', 'numpy.sum'}


def rank_term(n, proj_dims):
    """three-valued: is the length the rank of the projection kernel?"""
    if n.op == 'phi' or phis_in(n):
        return None
    q = poly_of(n)
    if q is None:
        return None
    const = q.pop((), 0)
    atoms = {a for m in q for a, _ in m}
    ranks = [a for a in atoms if a.op == 'call' and a.args[0] in RANKCALLS or a.op == 'dim' and (a.args[0] in proj_dims or isinstance(a.args[0], Term))]
    if len(atoms) == 1 and len(ranks) == 1 and list(q.values()) == [1] and list(q)[0][0][1] == 1:
        return const == 0
    if not atoms:
        return False
    if all(a.op in ('dim', 'param') and not isinstance(a.args[0], Term) or a in ranks for a in atoms):
        return False
    return None


def clear_path(p, st):
    """every condition on the path speaks about arguments only (no joins, masks or draws): the path is surely feasible"""
    for s in path_of(st):
        t = s[4] if len(s) > 4 else None
        if isinstance(t, Term) and any(x.op in ('phi', 'mask', 'draw', 'site', 'upd', 'mut') or x.op == 'call' and x.args[0] in RANDLEN for x in subterms(t)):
            return False
    return True


def head(p, st, v, name):
    """the sample of a sampler that returns it with further results"""
    o = p.the_obj(st, v)
    if o is not None and o.kind == 'tuple' and o.items:
        w = o.items[0]
        x = p.the_obj(st, w)
        if x is not None and x.kind in ('list', 'array', 'set', 'tuple') or w.term.op in ('phi', 'call', 'draw'):
            return w
    return v


def judge(r, task, res):
    t, kind = task
    p = r.p
    lb = dom_label(t)
    res['label'] = lb
    rets = {}
    SIZE = r.want = SIZES[max(1, len(t[4]) if t[1] == 'obj' else 1)]
    p.hooks['return'] = lambda p, fn, s, v: rets.setdefault(v.term, fn)
    try:
        runs = run_dom(r, t)
    finally:
        p.hooks.pop('return', None)
    r.cache.clear()
    method = t[4][-1][0] if t[1] == 'obj' else ''
    entry = (t[2] + ('.' + method if method else '')).replace('dppy.', '')
    chain = method == 'sample_mcmc_k_dpp' or t[2].endswith('mcmc')
    for run in runs:
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        if run.fail:
            res['notes'].append('not analysed: %s: %s' % (lb, run.fail))
            continue
        for st, v in run.rets:
            res['obligations'] += 1
            v = head(p, st, v, t[2])
            fn = rets.get(v.term)
            where = p.where(fn.node, fn.mod) if fn is not None else ''
            name = fn.qual if fn is not None else entry
            mode = dict(t[4][-1][1] if t[1] == 'obj' else t[4]).get('mode', '')
            if chain and method:
                # the last state of the chain is returned
                d, n = decide(p, st, v, 0, SIZE)
            elif chain:
                s = p.shape(p.tm(st, v))
                n = s[1] if s and s != 'rec' and len(s) == 2 else None
                d = 'unknown' if n is None else {True: 'ok', False: 'bad', None: 'bad' if not phis_in(n) and resolved(n) else 'unknown'}[p.cmp_terms(st, 'Eq', n, SIZE)]
            elif kind == 'rank':
                n = length(p, st, v)
                x = None if n is None else rank_term(n, ('R',))
                d = {True: 'ok', False: 'bad', None: 'unknown'}[x]
            else:
                d, n = decide(p, st, v, 1 if t[2] == NSEL else 0, SIZE)
            if d == 'bad' and n.op == 'const' and not clear_path(p, st):
                d = 'unknown'
            if d == 'unknown':
                res['notes'].append('undecided length %s: %s' % (show(n)[:80] if n is not None else '?', lb))
                res['undecided'] = res.get('undecided', 0) + 1
            elif d == 'bad':
                want = 'the rank of the kernel' if kind == 'rank' else 'the requested size'
                res['findings'].append(finding('wrong-size', where, name, '%s:%s' % (entry, mode), 'the returned sample has %s items, which is not %s on every path' % (show(n), want), lb,
                                               ['path: %s' % show(s[4]) for s in path_of(st)[:6] if len(s) > 4 and isinstance(s[4], Term)]))
