"""Effect analysis of display methods: after a sampling call, every plotting, histogram, normalization, info and string
method is interpreted on the resulting object; no in-place operation on any path may reach an object that is reachable from the
recorded samples, and the attribute that holds them is not rebound."""
from sa import sweep
from sa.sweep import obj_tasks, finding, ev_finding, receivers, methods, method_specs, applicable, SAMPLERS, SHOWERS, reach, attr, freeze
from sa.drive import FD

LEVEL = 'other'
RULE = 'an obligation is one in-place operation or attribute store inside a display method'
HOLDERS = ('list_of_samples', 'list_of_young_diag')
RECORDS = ('sampling_params', 'sampling_mode')


def samplers_for(cname, cspec, tier):
    out = []
    for m in methods(cname):
        if m in SAMPLERS:
            for sp in method_specs(cname, m, rs='rng', opts=False):
                if applicable(cname, cspec, m, sp):
                    out.append((m, sp))
                    break
    return out


def tasks(tier):
    for cname, cspec in receivers(proj=(False, True) if tier == 'thorough' else (False,), first=True):
        ss = samplers_for(cname, cspec, tier)
        for first in ss:
            for m2 in methods(cname):
                if m2 in SHOWERS:
                    for sp in method_specs(cname, m2, rs='rng', opts=False):
                        yield ('obj', cname, cspec, (first, (m2, sp)))
                        if m2 == 'hist' or (tier == 'thorough' and m2 in ('plot', 'normalize_points')):
                            yield ('obj', cname, cspec, (first, (m2, sp), (m2, sp)))
            if cname == FD and tier != 'thorough':
                break


def judge(r, task, res):
    p = r.p
    for run in r.run(task):
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        st0, recv = run.st0, run.recv
        held = {}
        for h in HOLDERS:
            v = attr(st0, recv, h)
            if v is not None:
                for l in reach(st0, v):
                    held[l] = h
        rl = set(recv.ls or ())
        pts = ('P', run.binder.prefix + 'points')
        for e in run.events:
            if e.kind in ('mutate', 'dictstore', 'append'):
                res['obligations'] += 1
                l = e.data['loc']
                if l in held or (l[-1:] == ('old',) and l[:-1] in held):
                    res['findings'].append(ev_finding(p, 'samples-modified', e, 'mutate', '%s changes %s while displaying' % (e.data.get('how', 'append' if e.kind == 'append' else 'item assignment'), held.get(l, held.get(l[:-1]))), run.label))
                elif l == pts:
                    res['findings'].append(ev_finding(p, 'points-modified', e, 'mutate', '%s changes the points that were passed in' % e.data.get('how', 'item assignment'), run.label))
            elif e.kind == 'store':
                res['obligations'] += 1
                if e.data['loc'] in rl and e.data['attr'] in HOLDERS:
                    v = attr(st0, recv, e.data['attr'])
                    if v is None or e.data['value'] is not v.term:
                        res['findings'].append(ev_finding(p, 'samples-rebound', e, e.data['attr'], 'rebinds %s while displaying' % e.data['attr'], run.label))
