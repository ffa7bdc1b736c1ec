"""Effect analysis on arguments: constructors, methods and functions are interpreted with their arguments as marked abstract
objects; views, aliases kept on the object and elements are tracked, and every in-place operation on any path (also in later
calls on the object) is required not to write into a marked object, the generator excepted."""
from sa import sweep
from sa.sweep import fn_tasks, obj_tasks, finding, ev_finding, receivers, methods, method_specs, applicable, SAMPLERS, SHOWERS, base_sample
from sa.drive import FD

LEVEL = 'other'
RULE = 'an obligation is one in-place operation with the set of objects it may write to'


def tasks(tier):
    for t in fn_tasks(rs='rng'):
        yield t
    for t in obj_tasks(rs='rng', ctor=True, opts=tier == 'thorough'):
        yield t
    # later calls on an object that has sampled (cached matrices may alias the arguments)
    for cname, cspec in receivers(proj=(False, True), first=True):
        ss = [m for m in methods(cname) if m in SAMPLERS]
        for m in ss[:1] if tier != 'thorough' else ss:
            for m2 in methods(cname):
                if m2 in SHOWERS or m2.startswith('compute') or (m2 in SAMPLERS and cname == FD):
                    for sp in method_specs(cname, m2, rs='rng', opts=False):
                        if m2 in SAMPLERS and tier != 'thorough' and dict(sp).get('mode') not in ("c:'GS'", "c:'Chol'", 'default', "c:'AED'"):
                            continue
                        if applicable(cname, cspec, m2, sp):
                            yield ('obj', cname, cspec, (base_sample(cname, m), (m2, sp)))


def returned_callables(r, run):
    """functions handed back to the caller are called with an array of the caller"""
    from sa.sweep import mkv, T, C, B
    for st, v in run.rets[:4]:
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            for a in x.atoms:
                if a[0] == 'f' and a not in seen and not getattr(a[1], 'gen', False):
                    seen.add(a)
                    s2 = st.clone()
                    arg = B(r.p, s2).arr('x', ['N'])
                    yield r.d.call(run.entry + '(...)', mkv([a], T('returned', a[1].qual)), {}, s2, pos=(arg,), label=run.label + '(x=arr:N)')
                elif a[0] == 'l':
                    o = st.heap.get(a[1])
                    if o is not None and o.kind in ('tuple', 'list') and o.items:
                        todo += [i for i in o.items if hasattr(i, 'atoms')]


def all_runs(r, task):
    for run in r.run(task):
        yield run
        if task[0] == 'fn':
            for x in returned_callables(r, run):
                yield x


def judge(r, task, res):
    p = r.p
    for run in all_runs(r, task):
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        for e in run.events:
            if e.kind in ('mutate', 'dictstore'):
                res['obligations'] += 1
                l = e.data['loc']
                if e.data.get('origin') == 'param' or (l[0] == 'P' and e.data.get('origin') != 'caller'):
                    st0 = run.st0
                    o = st0.heap.get(l) if st0 is not None else None
                    if o is not None and o.kind == 'rng':
                        continue
                    name = l[1] if l[0] == 'P' else '?'
                    res['findings'].append(ev_finding(p, 'argument-modified', e, 'mutate', '%s writes into the argument %s of the caller' % (e.data.get('how', 'item assignment'), name), run.label))
