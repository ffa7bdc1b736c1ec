"""Counting analysis of generator creation: each public sampling call is interpreted with an integer seed and with a
generator object; along every path the number of generators created from the seed is at most one (zero if a generator was
passed), no generator is re-seeded, rewound, copied or replaced, and none is created inside a loop."""
from sa.sweep import ev_finding, finding, show
from sa.engine import Event
from checks import c01

LEVEL = 'other'
RULE = 'an obligation is one exit state (its generator count) or one operation on the state of a generator'


def tasks(tier):
    return [t for t in c01.tasks(tier) if t[0] == 'fn' or len(t[3]) == 1]


def setup(r):
    def newrng(p, node, st, loc, origin):
        if isinstance(origin, tuple) and origin[0] == 'seed':
            d = dict(st.cnt)
            k = d.get('rng', 0)
            d['rng'] = 2 if k else 1
            st.cnt = tuple(sorted(d.items(), key=repr))
            if k:
                p.emit('rng2', node, st, loc=loc, term=origin[1])
    r.p.hooks['rngnew_'] = newrng


def judge(r, task, res):
    for run in r.run(task):
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        res['obligations'] += len(run.rets)
        obj = any(v == 'rng' for v in run.spec.values())
        for e in run.events:
            if e.kind == 'rng2':
                res['findings'].append(ev_finding(r.p, 'second-generator', e, 'create', 'a second generator is created during one call (seed %s)' % show(e.data['term']), run.label))
            elif e.kind == 'rngnew':
                res['obligations'] += 1
                o = e.data['origin']
                if isinstance(o, tuple) and o[0] == 'copy':
                    res['findings'].append(ev_finding(r.p, 'copied-generator', e, 'copy', 'a generator is copied, its variates will be replayed', run.label))
                elif obj and isinstance(o, tuple) and o[0] == 'seed':
                    res['findings'].append(ev_finding(r.p, 'replaced-generator', e, 'create', 'a new generator is created although the caller passed one', run.label))
            elif e.kind == 'reseed':
                res['obligations'] += 1
                res['findings'].append(ev_finding(r.p, 'reseed', e, e.data['method'], '%s() changes the state of a generator' % e.data['method'], run.label))
