"""A sample is a set.  The exact samplers and the Markov chains on subsets are analysed on small instances with symbolic kernel entries; every draw of an item forks the analysis, so the
leaves of the decision tree list every selection the code can make.  In exact arithmetic the weight of an item that is already selected often vanishes, but only up to rounding; so a
leaf with a repeated item is excused only if it cannot be taken when every floating point operation is off by a small relative error: the item must have been excluded from the
population, or its weight set to zero, by construction.  Items must be indices of the ground set.  The states of the chains, and the initial states the library draws, are treated alike."""
import random
from sa import chains, exact, law
from sa.chains import Tree, chain_task, subsets, psd, point, show_set, report, sampled, fn, obj, FUN, MC
from sa.formula import bind
from sa.law import Undecided, BadProb
from sa.pit import NotEval

TITLE = 'samples are sets'
LEVEL = 'other'
RULE = 'no leaf of the decision tree that can be reached with inexact arithmetic has a repeated item, or an item outside of the ground set'
MAX_STATES = dict(quick=80, thorough=80)
BY = {c.key: c for c in exact.CASES}


def tasks(tier):
    for c in exact.CASES:
        if not c.columns and (tier == 'thorough' or c.tier == 'quick'):
            yield ('exact', c.key)
    for N in (2, 3):
        for mode in ('AED', 'AD', 'E'):
            for S in subsets(N):
                if mode == 'E' and not S:
                    continue
                yield ('chain', 'fn', mode, N, S, 3 if N == 3 else 4)
                if N == 3:
                    yield ('chain', 'L', mode, N, S, 2)
                    if mode == 'E':
                        yield ('chain', 'Lk', mode, N, S, 2)
    for N in (2, 3):
        yield ('init', 'initialize_AED_sampler', N, None)
        for size in (None,) + tuple(range(1, N + 1)):
            yield ('init', 'initialize_AD_and_E_sampler', N, size)
    for N in (2,):
        for route in ('dispatch', 'L'):
            for mode in ('AED', 'AD', 'E'):
                yield ('fresh', route, mode, N)


def build(task):
    """(task of the analysis, number of items, points, options of the tree, anchor)"""
    kind = task[0]
    if kind == 'exact':
        c = BY[task[1]]
        return c.task, c.N, c.points, dict(result=c.result, sample=sampled(c.points(random.Random(5))[0])), c.at
    if kind == 'chain':
        _, route, mode, N, S, it = task
        name = 'kernel' if route in ('fn', 'dispatch') else 'L'
        return chain_task(route, mode, N, S, it), N, lambda r: ({name: psd(r, N)}, None), {}, MC + FUN[mode]
    gen = random.Random(5)
    if kind == 'init':
        _, name, N, size = task
        spec = dict(kernel='arr:%d,%d' % (N, N), random_state='rng')
        if size:
            spec['size'] = 'c:%d' % size
        return fn(MC + name, **spec), N, lambda r: ({'kernel': psd(r, N)}, None), dict(generic=sampled({'kernel': psd(gen, N)})), MC + name
    _, route, mode, N = task
    A = 'arr:%d,%d' % (N, N)
    args = dict(nb_iter='c:2', random_state='rng', mode="c:'%s'" % mode)
    if mode == 'E':
        args['size'] = 'c:1'
    if route == 'dispatch':
        return fn(MC + 'dpp_sampler_mcmc', kernel=A, **args), N, lambda r: ({'kernel': psd(r, N)}, None), dict(generic=sampled({'kernel': psd(gen, N)})), MC + FUN[mode]
    t = obj('finite_dpps.FiniteDPP', dict(kernel_type="c:'likelihood'", projection='c:False', L=A), ('sample_mcmc', args))
    return t, N, lambda r: ({'L': psd(r, N)}, None), dict(generic=sampled({'L': psd(gen, N)})), MC + FUN[mode]


def sets(x):
    """the samples in a value: one, or a list of them"""
    return [s if isinstance(s, tuple) else None for s in x] if x and any(isinstance(s, tuple) for s in x) else [x]


def judge(r, task, res):
    res['label'] = ' '.join(map(str, task))
    t, N, points, kw, at = build(task)
    res['runs'] += 1
    try:
        tree = Tree(r, t, limit=20000, **kw)
    except Undecided as e:
        res['notes'].append('%s: %s' % (res['label'], e))
        return
    res['paths'] += len(tree.leaves) + len(tree.exc)
    bad = {}
    for k in range(2):
        env = point(points(random.Random(40 + k))[0]).env
        pt = law.NoisyPoint(env, k)
        for path, st, v in tree.leaves:
            try:
                w, _ = pt.prob(path)
                if not w:
                    continue
                x = law.content(r.p, st, v, pt.ev)
            except (Undecided, NotEval, BadProb) as e:
                res['notes'].append('%s: %s' % (res['label'], e))
                continue
            res['obligations'] += 1
            for s in sets(x if isinstance(x, tuple) else (x,)):
                if s is None or not all(isinstance(i, (int, float)) for i in s):
                    continue
                if len(set(s)) < len(s):
                    bad.setdefault('twice', {}).setdefault(k, (s, w))
                elif any(i != int(i) or not 0 <= i < N for i in s):
                    bad.setdefault('range', {}).setdefault(k, (s, w))
    for kind, ex in sorted(bad.items()):
        if len(ex) < 2:
            continue
        s, w = ex[0]
        text = 'the sample may be %s: %s' % (show_set(s), 'an item that is already selected is not excluded from later draws' if kind == 'twice' else 'not indices of the %d items' % N)
        res['findings'].append(report(r, 'set', t, '%s:%s' % (kind, ':'.join(map(str, task[:3]))), text, at))
