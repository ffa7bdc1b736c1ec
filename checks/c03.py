"""Effect analysis: every public function, constructor and method is interpreted abstractly; process-wide settings form
a typestate (clean / changed by a given call) that has to be clean again on every normal and exceptional exit, library calls
made while it is changed may raise; stores into and mutations of module-level objects are reported."""
from sa import sweep
from sa.sweep import fn_tasks, obj_tasks, finding, ev_finding, reach
from sa.engine import V

LEVEL = 'other'
RULE = 'an obligation is one exit state (process-wide typestate clean), one setter call or one mutation'


def tasks(tier):
    yield ('import',)
    for t in fn_tasks(rs='rng'):
        yield t
    for t in obj_tasks(rs='rng', ctor=True, opts=tier == 'thorough', proj=(False, True) if tier == 'thorough' else (False, True)):
        yield t


def modlocs(p):
    r = p.__dict__.get('_modlocs')
    if r is None:
        r = set()
        for fid, f in p.base.frames.items():
            if fid[0] == 'M':
                for v in f.values():
                    if isinstance(v, V) and v.ls:
                        r |= reach(p.base, v)
        p._modlocs = r
    return r


def events(r, run_events, label, res):
    p = r.p
    ml = modlocs(p)
    for e in run_events:
        if e.kind == 'globalstore':
            res['obligations'] += 1
            res['findings'].append(ev_finding(p, 'module-global', e, e.data['name'], 'rebinds the module-level name %s' % e.data['name'], label))
        elif e.kind in ('mutate', 'dictstore'):
            res['obligations'] += 1
            if e.data['loc'] in ml:
                res['findings'].append(ev_finding(p, 'module-object', e, 'mutate', 'modifies a module-level object of the package', label))
        elif e.kind == 'fnstore':
            res['findings'].append(ev_finding(p, 'function-attribute', e, e.data['attr'], 'stores state on the function %s' % e.data['fn'], label))
        elif e.kind == 'global':
            res['obligations'] += 1
            if e.data['what'] in ('process-wide object', 'attribute of an external module'):
                res['findings'].append(ev_finding(p, 'process-object', e, e.data['name'], 'modifies %s (%s)' % (e.data['name'], e.data['what']), label))


def judge(r, task, res):
    p = r.p
    if task[0] == 'import':
        events(r, [e for e in p.import_events if e.kind in ('global', 'globalstore')], 'import', res)
        res['obligations'] += len(p.modtrees)
        for d in p.base.dirty:
            res['findings'].append(finding('process-setting', d[1], 'import', d[2], 'importing the package leaves a process-wide setting changed: %s at %s' % (d[2], d[1]), 'import'))
        return
    for run in r.run(task):
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        events(r, run.events, run.label, res)
        for kind, sts in (('returns', run.rets), ('raises %s', run.raises)):
            for st, x in sts:
                res['obligations'] += 1
                for d in st.dirty:
                    fn = next((e.fn for e in run.events if e.kind == 'global' and e.data['name'] == d[2] and p.where(e.node, e.mod) == d[1]), run.entry)
                    how = 'the call returns' if kind == 'returns' else 'the call raises %s' % x.name
                    res['findings'].append(finding('process-setting', d[1], fn, d[2], '%s changes a process-wide setting that is not restored when %s' % (d[2], how), run.label))
