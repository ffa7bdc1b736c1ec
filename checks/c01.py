"""Provenance analysis: every public sampling call is interpreted abstractly with a random_state argument (a generator
object and an integer), alone and after an earlier call on the same object, and every operation that consumes random variates on
any path is required to use the generator of that very call; entropy sources and results depending on clocks or set
order are reported."""
from sa import sweep
from sa.sweep import fn_tasks, obj_tasks, base_sample, methods, SAMPLERS, ev_finding, finding, reach, receivers, freeze, method_specs, applicable
from sa.drive import FN, FD
from sa.terms import T

LEVEL = 'other'
RULE = 'an obligation is one (draw, origin) pair, or one exit state whose result must not depend on a clock or set order'


def has_rs(spec):
    return any(v in ('rng', 'seed') for _, v in spec)


def tasks(tier):
    for t in fn_tasks(full=False):
        if has_rs(t[2]):
            yield t
    for t in obj_tasks(opts=tier == 'thorough'):
        if has_rs(t[3][-1][1]):
            yield t
    # a second call on the same object must use its own generator
    for cname, cspec in receivers(proj=(False, True) if tier == 'thorough' else (False,), first=True):
        for m in methods(cname):
            if m not in SAMPLERS:
                continue
            for spec in method_specs(cname, m, rs='rng', opts=False):
                if has_rs(spec) and applicable(cname, cspec, m, spec):
                    first = (m, spec)
                    yield ('obj', cname, cspec, (first, (m, spec)))
                    if tier != 'thorough' and cname != FD:
                        break


def allowed(run, e, names):
    loc, origin = e.data['loc'], e.data['origin']
    pre = run.binder.prefix
    for n in names:
        if loc == ('P', pre + n):
            return True
        if isinstance(origin, tuple) and origin[0] == 'seed' and (origin[1] is T('param', pre + n) or ('p', pre + n) in origin[2]):
            return True
    return False


def describe(o):
    if o == 'entropy':
        return 'a generator seeded from the operating system'
    if o == 'global':
        return "numpy's or Python's global generator"
    if o == 'caller':
        return 'a generator that belongs to another call'
    if isinstance(o, tuple) and o[0] == 'seed':
        return 'a generator seeded with %s' % sweep.show(o[1])
    if isinstance(o, tuple) and o[0] == 'copy':
        return 'a copy of a generator'
    return 'an unknown generator (%s)' % (o,)


def judge(r, task, res):
    for run in r.run(task):
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        names = [k for k, v in run.spec.items() if v in ('rng', 'seed')]
        for e in run.events:
            if e.kind == 'draw':
                res['obligations'] += 1
                if not allowed(run, e, names):
                    o = e.data['origin']
                    res['findings'].append(ev_finding(r.p, 'foreign-draw', e, '%s/%s' % (e.data['method'], o if isinstance(o, str) else o and o[0]),
                                                      '%s() draws from %s instead of the random_state of the call' % (e.data['method'], describe(o)), run.label))
            elif e.kind == 'entropy':
                res['findings'].append(ev_finding(r.p, 'entropy', e, e.data['name'], 'uses %s while a random_state was given' % e.data['name'], run.label))
            elif e.kind == 'branch':
                tg = e.data['tags']
                if '!setorder' in tg or ('!clock' in tg and ('p', run.binder.prefix + 'T_max') not in tg and ('p', 'T_max') not in tg):
                    res['obligations'] += 1
                    if control_output(run, e):
                        res['findings'].append(ev_finding(r.p, 'nondeterministic-branch', e, 'branch', 'a decision depends on %s' % ('set iteration order' if '!setorder' in tg else 'a clock'), run.label))
        for st, v in run.rets:
            res['obligations'] += 1
            tg = set(v.tags)
            ls = reach(st, v)
            for l in ls:
                o = st.heap.get(l)
                if o is not None:
                    tg |= o.tags
            bad = [t for t in tg if isinstance(t, str) and t in ('!setorder', '!clock', '!id', '!hash')]
            if '!clock' in bad and any(isinstance(t, tuple) and t[1].endswith('T_max') for t in tg):
                bad.remove('!clock')
            if bad:
                res['findings'].append(finding('nondeterministic-result', '', run.entry, bad[0], 'the value returned depends on %s' % {'!setorder': 'the iteration order of a set', '!clock': 'a clock'}.get(bad[0], bad[0]), run.label))


def control_output(run, e):
    return True
