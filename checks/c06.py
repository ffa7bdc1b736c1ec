"""Path-sensitive history analysis: every sampling method is interpreted on a fresh object and on one that already recorded a
sample; the abstract list of samples on each normal exit must be the earlier list with exactly one entry added at the
end (the one returned, or whose last state is returned), on each exceptional exit the earlier list, and after flushing
the empty list; lists kept in parallel have equal length."""
from sa import sweep
from sa.sweep import obj_tasks, finding, receivers, methods, method_specs, applicable, SAMPLERS, attr, obj, base_sample, locs, freeze
from sa.drive import FD
from sa.engine import cval, sole

LEVEL = 'other'
RULE = 'an obligation is the list of samples at one normal or exceptional exit'
PARALLEL = (('list_of_samples', 'list_of_young_diag'),)


def tasks(tier):
    for cname, cspec in receivers(proj=(False, True), first=tier != 'thorough'):
        if cname.rsplit('.', 1)[-1] in ('MultivariateJacobiOPE', 'BetaEnsemblePolynomialPotential', 'TracyWidom'):
            continue
        yield ('obj', cname, cspec, ())
        yield ('obj', cname, cspec, (('flush_samples', ()),))
        for m in methods(cname):
            if m not in SAMPLERS:
                continue
            k = 0
            for sp in method_specs(cname, m, rs='rng', opts=False):
                if not applicable(cname, cspec, m, sp):
                    # a request that has to fail must not leave a record
                    if tier == 'thorough' or dict(cspec).get('projection') == "c:False":
                        yield ('obj', cname, cspec, ((m, sp),))
                    continue
                yield ('obj', cname, cspec, ((m, sp),))
                if dict(sp).get('mode') not in ("c:'vfx'", "c:'alpha'") or tier == 'thorough':
                    yield ('obj', cname, cspec, ((m, sp), (m, sp)))
                if k == 0:
                    yield ('obj', cname, cspec, ((m, sp), ('flush_samples', ())))
                    yield ('obj', cname, cspec, ((m, sp), ('flush_samples', ()), (m, sp)))
                k += 1
            # after a call of another sampling method
            for m2 in methods(cname):
                if m2 in SAMPLERS and m2 != m:
                    a = base_sample(cname, m2)
                    b = base_sample(cname, m)
                    if applicable(cname, cspec, *a) and applicable(cname, cspec, *b):
                        yield ('obj', cname, cspec, (a, b))
            # a mode nobody knows
            sp = dict(next(iter(method_specs(cname, m, rs='rng', opts=False))))
            if 'mode' in sp:
                sp['mode'] = 'strx'
                yield ('obj', cname, cspec, ((m, freeze(sp)),))


def setup(r):
    r.merge = 4

    def app(p, node, st, l, v):
        h = getattr(r, 'held', {}).get(l)
        if h:
            d = dict(st.cnt)
            k = d.get(h, 0)
            d[h] = 'many' if k == 'many' or k >= 2 else k + 1
            st.cnt = tuple(sorted(d.items(), key=repr))
    r.p.hooks['append_'] = app


def items(st, recv, name):
    v = attr(st, recv, name)
    if v is None:
        return 'missing', None
    o = obj(st, v)
    if o is None or o.kind != 'list':
        return 'unknown', None
    if o.items is None:
        return 'open', v
    return o.items, v


def same(st0, a, st1, b):
    return a is b or a.atoms == b.atoms or a.term is b.term


def names(st, recv):
    o = obj(st, recv)
    return [k for k in (o.attrs or {}) if isinstance(k, str) and k in ('list_of_samples', 'list_of_young_diag')] if o is not None else []


def last_state(st, x):
    """values that are the last element of the recorded chain x"""
    o = obj(st, x)
    if o is None or o.kind not in ('list', 'tuple'):
        return None
    if o.items:
        return o.items[-1]
    return None


def judge(r, task, res):
    p = r.p
    cname = task[1]
    if not task[3]:
        for run in r.run(task):
            res['runs'] += 1
            for st, v in run.rets:
                for n in names(st, v):
                    res['obligations'] += 1
                    it, _ = items(st, v, n)
                    if it not in ((), 'open', 'unknown'):
                        res['findings'].append(finding('new-not-empty', '', cname, n, 'a new object starts with %s that is not an empty list' % n, run.label))
        return
    m = task[3][-1][0]
    _, before = r.prefix(task[1], task[2], task[3][:-1])
    r.held = {}
    for st, recv in before:
        for n in names(st, recv):
            v = attr(st, recv, n)
            for l in locs(v):
                r.held[l] = n
    for run in r.run(task):
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        st0, recv = run.st0, run.recv
        fnname = cname + '.' + m
        a = p.find_method(fnname)
        if a is not None:
            fnname = a[1].qual
        for n in names(st0, recv):
            old, ov = items(st0, recv, n)
            if isinstance(old, str):
                res['notes'].append('%s: %s is not tracked before the call' % (run.label, n))
                continue
            for st, v in run.rets:
                res['obligations'] += 1
                new, nv = items(st, recv, n)

                def bad(rule, msg):
                    res['findings'].append(finding(rule, '', fnname, n, msg, run.label))
                if m == 'flush_samples':
                    if isinstance(new, tuple) and new:
                        bad('flush', '%s is not empty after flush_samples()' % n)
                    elif new == 'missing':
                        bad('flush', '%s is gone after flush_samples()' % n)
                    elif new == 'open':
                        res['notes'].append('%s: %s not known after flush' % (run.label, n))
                    continue
                if m not in SAMPLERS:
                    continue
                if new == 'missing':
                    bad('record', '%s is gone after sampling' % n)
                    continue
                if isinstance(new, str):
                    c = dict(st.cnt).get(n, 0)
                    if c != 1 and same_loc(ov, nv):
                        bad('record', '%s entries are added to %s by one successful call instead of exactly one' % (c, n))
                    else:
                        res['notes'].append('%s: %s not tracked exactly after the call (%s)' % (run.label, n, new))
                    continue
                if len(new) != len(old) + 1:
                    bad('record', '%d entries in %s after a successful call, %d before (exactly one must be added)' % (len(new), n, len(old)))
                    continue
                if any(not same(st0, x, st, y) for x, y in zip(old, new)):
                    bad('order', 'an earlier entry of %s is changed, or the new one is not added at the end' % n)
                    continue
                if n == 'list_of_samples' and cval(v) != (True, None):
                    x = new[-1]
                    res['obligations'] += 1
                    ok = same(st, x, st, v) or p.tm(st, x) is p.tm(st, v)
                    if not ok:
                        z = last_state(st, x)
                        if z is not None and same(st, z, st, v):
                            ok = True
                    if not ok and not derived(p, st, v, x):
                        bad('returned', 'the value returned is not the recorded sample (nor the last state of the recorded chain)')
            for st, ex in run.raises:
                res['obligations'] += 1
                new, nv = items(st, recv, n)
                if ex.implicit:
                    continue
                if isinstance(new, str):
                    c = dict(st.cnt).get(n, 0)
                    if c not in (0,) and new != 'unknown':
                        res['findings'].append(finding('record-on-failure', p.where(ex.node) if ex.node is not None else '', fnname, n, 'a call that raises %s adds an entry to %s' % (ex.name, n), run.label))
                    continue
                if len(new) != len(old) or any(not same(st0, x, st, y) for x, y in zip(old, new)):
                    res['findings'].append(finding('record-on-failure', '', fnname, n, 'a call that raises %s changes %s' % (ex.name, n), run.label))
        if m in SAMPLERS:
            for x, y in PARALLEL:
                for st, v in run.rets:
                    a1, _ = items(st, recv, x)
                    b1, _ = items(st, recv, y)
                    if b1 == 'missing' or isinstance(a1, str) or isinstance(b1, str):
                        continue
                    res['obligations'] += 1
                    if len(a1) != len(b1):
                        res['findings'].append(finding('parallel', '', fnname, y, '%s and %s differ in length after a call' % (x, y), run.label))


def same_loc(a, b):
    return a is not None and b is not None and set(a.ls or ()) == set(b.ls or ())


def derived(p, st, v, x):
    """v is an element of the chain x (its last one, as far as the analysis can tell)"""
    from sa.terms import subterms, T, C, contains
    o = obj(st, x)
    if o is None:
        return True
    tv = v.term
    tx = {x.term, p.tm(st, x)}
    if o.kind in ('list', 'tuple', 'array'):
        if tv.op == 'idx' and tv.args[0] in tx and tv.args[1].op == 'const':
            return tv.args[1] is C(-1)
        if o.items is None:
            return True                       # element of a summarized chain
    if tv.op == 'phi' or x.term.op == 'phi':
        return True
    return False
