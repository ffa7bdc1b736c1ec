"""Cached results.  (1) Histories of two or three calls on one FiniteDPP are analysed on small instances with symbolic kernel entries, with all draws enumerated; the law of the last sample
must be the law of the DPP or k-DPP that the last call asks for, for all outcomes of the earlier calls.  So symbolic polynomials, spectra and kernels that earlier calls leave in the object
may be reused only where they fit.  (2) For the samplers that hand their precomputed constants back to the object ('vfx' and 'alpha'), the calls of these samplers are intercepted: the
constants passed to a call must be absent, or have been returned by a call of the same sampler for the same size and expected size, on every path of every history."""
import itertools
from sa import exact
from sa.chains import report
from sa.engine import mkv, unk, cval, sole
from sa.formula import obj
from sa.drive import FD
from sa.sweep import label, finding, obj_tasks, receivers, method_specs, applicable, base_sample, SAMPLERS
from sa.terms import T, subterms
from checks import c30

TITLE = 'caches'
LEVEL = 'other'
RULE = 'the law of the last sample of a history is that of the request of the last call; precomputed constants are passed only to the sampler, size and expected size they were computed for'
MAX_STATES = dict(quick=80, thorough=80)
HIST = exact.histories()
BY = {c.key: c for c in HIST}
REQ = {('x', 'vfx', None): ('sample_exact', dict(mode="c:'vfx'")), ('x', 'alpha', None): ('sample_exact', dict(mode="c:'alpha'")),
       ('k', 'vfx', 1): ('sample_exact_k_dpp', dict(mode="c:'vfx'", size='c:1')), ('k', 'vfx', 2): ('sample_exact_k_dpp', dict(mode="c:'vfx'", size='c:2')),
       ('k', 'alpha', 1): ('sample_exact_k_dpp', dict(mode="c:'alpha'", size='c:1')), ('k', 'alpha', 2): ('sample_exact_k_dpp', dict(mode="c:'alpha'", size='c:2')),
       ('d', 'vfx', 3): ('sample_exact', dict(mode="c:'vfx'", desired_expected_size='c:3')), ('d', 'alpha', 3): ('sample_exact', dict(mode="c:'alpha'", desired_expected_size='c:3')),
       ('f', None, None): ('flush_samples', {}), ('e', 'GS', 1): ('sample_exact_k_dpp', dict(mode="c:'GS'", size='c:1')), ('e', 'GS', None): ('sample_exact', dict(mode="c:'GS'"))}


def tasks(tier):
    for c in HIST:
        if tier == 'thorough' or c.tier == 'quick':
            yield ('law', c.key)
    for c in WARM:
        yield ('warm',) + c
    for t in obj_tasks(rs='rng', opts=False):
        if t[1] in (FD, 'exotic_dpps.UST') and t[3] and t[3][-1][0] in SAMPLERS:
            yield ('overwrite', t)
    reqs = [q for q in REQ if q[0] in 'xkd']
    for a, b in itertools.product(reqs, reqs):
        yield ('request', a, b)
        yield ('request', a, ('f', None, None), b)
        for m in reqs:
            if m != a:
                yield ('request', a, m, b)
        if a != b:
            yield ('request', a, ('e', 'GS', 1), b)


def reused(r, task, res):
    hist = task[1:]
    t = obj(exact.FD, dict(kernel_type="c:'likelihood'", projection='c:False', L_eval_X_data='evalX'),
            *[(REQ[q][0], dict(REQ[q][1], **({} if q[0] == 'f' else {'random_state': 'rng'}))) for q in hist])
    res['label'] = label(t)
    bad, seen = {}, []

    def intercept(p, f, pos, kw, st, n):
        g = f[1] if isinstance(f, tuple) else f
        names = [a.arg for a in g.node.args.args] if hasattr(g, 'node') and hasattr(g.node, 'args') else []
        if 'intermediate_sample_info' not in names:
            return None
        args = dict(zip(names, pos), **kw)
        if 'eval_L' not in names or 'X_data' not in names or 'random_state' not in names and 'rng' not in names:
            return None
        if not g.qual.split('.')[-1].endswith('_sampler'):
            return None
        def value(name):
            v = args.get(name)
            return None if v is None else cval(v)[1] if cval(v)[0] else p.tm(st, v)
        me = (g.qual, value('size'), value('desired_expected_size'))
        info = args.get('intermediate_sample_info')
        seen.append(me)
        if info is not None:
            x = p.tm(st, info)
            if x.op == 'info':
                res['obligations'] += 1
                old = tuple(x.args)
                if old != me:
                    bad.setdefault((old, me), (n, p.mod))
        t1 = T('info', *me)
        s = st.clone()
        sampl = p.newlist(s, n, 'list', None, unk(T('item', *me), frozenset(), 'int'))
        loc = p.alloc(s, n, 'ext', 'info', term=t1, attrs={})
        return [(s, p.newlist(s, n, 'tuple', (sampl, mkv([('l', loc)], t1)), None))]
    r.p.hooks['intercept'] = intercept
    r.cache.clear()
    r.envs.clear()
    try:
        runs = r.run(t)
    finally:
        r.p.hooks.pop('intercept', None)
        r.cache.clear()
        r.envs.clear()
    for run in runs:
        res['runs'] += 1
        res['paths'] += len(run.rets) + len(run.raises)
        if run.fail:
            res['notes'].append('%s: %s' % (res['label'], run.fail))
            return
    if not seen:
        res['notes'].append('%s: no sampler takes precomputed constants' % res['label'])
    for (old, me), _ in sorted(bad.items(), key=repr):
        show = lambda q: q[0].split('.')[-1] + ('' if q[1] is None else ' for size %s' % (q[1],)) + ('' if q[2] is None else ' for expected size %s' % (q[2],))
        m = [q for q in hist][-1]
        res['findings'].append(report(r, 'reuse', t, '%s:%s' % (show(old), show(me)), 'constants computed by %s are reused by %s' % (show(old), show(me)), exact.FD + '.' + REQ[m][0]))


TW, UST = 'beta_ensemble_polynomial_potential_core.TracyWidom', 'exotic_dpps.UST'
CDF = [('cdf', dict(x='float', quad_order='c:%d' % k)) for k in (20, 50)] + [('cdf', dict(x='float'))]
TREE = [('sample', dict(mode="c:%r" % m, random_state='rng')) for m in ('GS', 'GS_bis', 'KuTa12', 'Schur', 'Chol')]
GR = dict(graph='graph')
# (class, constructor, earlier call, last call, functions whose arguments are compared)
WARM = [(TW, (), h(a), h(b), ('fredholm_determinant',)) for h in [lambda c: (c[0], tuple(sorted(c[1].items())))] for a in CDF for b in CDF] + \
    [(UST, tuple(GR.items()), h(a), h(b), ('proj_dpp_sampler_kernel', 'proj_dpp_sampler_eig')) for h in [lambda c: (c[0], tuple(sorted(c[1].items())))]
     for a in TREE + [('plot_kernel', {}), ('compute_kernel', {}), ('compute_kernel_eig_vecs', {})] for b in TREE]


def received(r, t, names):
    """arguments that the functions `names` receive in the last call of a history, by function and position"""
    seen = {}

    def intercept(p, f, pos, kw, st, n):
        g = f[1] if isinstance(f, tuple) else f
        q = getattr(g, 'qual', '').split('.')[-1]
        if q in names and (not p.cstack or p.cstack[-1][0].qual.split('.')[-1] not in names):
            a = [p.tm(st, x) for x in pos] + [p.tm(st, x) for k, x in sorted(kw.items())]
            seen.setdefault(q, []).append(tuple(x for x in a if x.op != 'fn' and not any(y.op == 'param' and 'random_state' in str(y.args[0]) for y in subterms(x))))
        return None
    r.p.hooks['intercept'] = intercept
    r.cache.clear()
    r.envs.clear()
    try:
        runs = r.run(t)
    finally:
        r.p.hooks.pop('intercept', None)
        r.cache.clear()
        r.envs.clear()
    return runs, seen


def orders(x):
    """quadrature rules a term is computed from"""
    return {repr(y.args[1:]) for y in subterms(x) if y.op == 'call' and 'leggauss' in str(y.args[0])}


def warm(r, task, res):
    _, cname, ctor, first, last, names = task
    step = lambda c: (c[0], dict(c[1]))
    t = obj(cname, dict(ctor), step(first), step(last))
    res['label'] = label(t)
    runs, got = received(r, t, names)
    _, before = received(r, obj(cname, dict(ctor), step(first)), names)
    _, cold = received(r, obj(cname, dict(ctor), step(last)), names)
    for run in runs:
        res['runs'] += 1
        res['paths'] += len(run.rets) + len(run.raises)
        if run.fail:
            res['notes'].append('%s: %s' % (res['label'], run.fail))
            return
    want = {q: v for q, v in cold.items()}
    if not want:
        res['notes'].append('%s: none of the compared functions is called' % res['label'])
    for q, v in want.items():
        for a in got.get(q, [])[len(before.get(q, [])):]:
            res['obligations'] += 1
            if any(a == b for b in v):
                continue
            if len({len(b) for b in v} | {len(a)}) == 1:
                oa = {o for x in a for o in orders(x)}
                ob = {o for b in v for x in b for o in orders(x)}
                if oa and ob and not oa & ob:
                    res['findings'].append(report(r, 'warm', t, '%s:%s' % (q, last[0]), 'the last call uses the quadrature %s, the same call on a new object %s' % (oa, ob), cname + '.' + last[0]))
                    continue
            res['notes'].append('%s: arguments of %s differ from those on a new object' % (res['label'], q))


def overwrite(r, task, res):
    t = task[1]
    bad = {}

    def mut(p, node, st, l, how):
        o = st.heap.get(l)
        f = p.curfn
        if o is None or o.kind != 'array' or f is None:
            return
        for l2, o2 in st.heap.items():
            if o2.kind == 'inst' and hasattr(o2.cls, 'name'):
                for name, v in o2.attrs.items():
                    if l in (v.ls or ()) and sole(v) is not None:
                        res['obligations'] += 1
                        if not f.qual.startswith('%s.%s.' % (o2.cls.mod, o2.cls.name)):
                            bad.setdefault((name, f.qual), (node, p.mod, how))
    r.p.hooks['mut'] = mut
    r.cache.clear()
    r.envs.clear()
    try:
        runs = r.run(t)
    finally:
        r.p.hooks.pop('mut', None)
        r.cache.clear()
        r.envs.clear()
    res['label'] = label(t)
    for run in runs:
        res['runs'] += 1
        res['paths'] += len(run.rets) + len(run.raises)
        if run.fail:
            res['notes'].append('%s: %s' % (res['label'], run.fail))
    for (name, q), (node, mod, how) in sorted(bad.items()):
        res['findings'].append(finding('overwrite', r.p.where(node, mod), q, name, '%s writes into the array that the object keeps as %s for later calls' % (how, name), label(t)))


def judge(r, task, res):
    if task[0] == 'warm':
        return warm(r, task, res)
    if task[0] == 'overwrite':
        return overwrite(r, task, res)
    if task[0] == 'request':
        return reused(r, task, res)
    c = BY[task[1]]
    res['label'] = c.key
    tree, bad = c30.compare(r, c, res, npoints=2)
    for kind, text in bad[:1]:
        res['findings'].append(report(r, 'history', tree.task, '%s:%s' % (c.key, kind), text, c.at))
