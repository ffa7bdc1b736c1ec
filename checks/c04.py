"""Alias analysis for state shared between objects: mutable default arguments, class attributes, module-level containers and
memoized results are marked as shared; every mutation reached from a constructor or method on any path (also in a
second call, when the shared object has been stored on the instance) is required not to touch a shared object."""
from sa import sweep
from sa.sweep import fn_tasks, obj_tasks, finding, ev_finding, receivers, methods, method_specs, applicable, SAMPLERS, base_sample

LEVEL = 'other'
RULE = 'an obligation is one mutation or attribute store on an abstract object, or one exit state of a constructor'


def tasks(tier):
    for t in obj_tasks(rs='rng', ctor=True, opts=tier == 'thorough'):
        yield t
    for cname, cspec in receivers(proj=(False,), first=True):
        ss = [m for m in methods(cname) if m in SAMPLERS]
        for m in ss[:1]:
            for m2 in methods(cname):
                if m2 == 'flush_samples' or tier == 'thorough':
                    for sp in method_specs(cname, m2, rs='rng', opts=False):
                        if applicable(cname, cspec, m2, sp):
                            yield ('obj', cname, cspec, (base_sample(cname, m), (m2, sp)))
    for t in fn_tasks(rs='rng'):
        yield t


def judge(r, task, res):
    p = r.p
    for run in r.run(task):
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        for e in run.events:
            if e.kind == 'classstore':
                res['findings'].append(ev_finding(p, 'class-attribute', e, e.data['attr'], 'stores into the class attribute %s.%s, shared by all objects' % (e.data['cls'], e.data['attr']), run.label))
            elif e.kind in ('mutate', 'dictstore', 'append'):
                res['obligations'] += 1
                l = e.data['loc']
                o = p.base.heap.get(l)
                if e.data.get('origin') == 'static' or (o is not None and o.origin == 'static'):
                    res['findings'].append(ev_finding(p, 'shared-object', e, 'mutate', 'modifies an object shared between instances or calls (default argument, class attribute, module-level or memoized object)', run.label))
            elif e.kind == 'store':
                res['obligations'] += 1
            elif e.kind == 'fnstore':
                res['findings'].append(ev_finding(p, 'function-attribute', e, e.data['attr'], 'stores state on the function %s' % e.data['fn'], run.label))
