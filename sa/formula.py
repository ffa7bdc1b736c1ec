"""Documented formulas against extracted terms (random interpretation of both sides, see pit.py).

An entry analyses one call (or a short history of calls on an object) with the abstract interpreter and states formulas for the value returned,
or for attributes of the receiver, in terms of the arguments.  For every path of the call, sample points at which the conditions of the path hold
are drawn, and both sides are evaluated there; a formula is refuted if at least two points differ.  A path is left undecided (and noted)
if a construct cannot be evaluated or no point satisfies its conditions.
"""
import random
from .terms import T, C, Term, subterms, show
from .domain import path_of
from . import pit, sweep
from .pit import Arr


COND = 'condition of the path not evaluable'


class Form:
    def __init__(self, key, task, points, want, hook=None, post=None, env=None, what='', assume=(), tol=1e-6, calls=()):
        self.key, self.task, self.points, self.want, self.hook, self.post, self.env, self.what = key, task, points, want, hook, post, env, what
        self.assume, self.tol, self.calls = assume, tol, calls


def fn(name, **spec):
    return ('fn', 'dppy.' + name, sweep.freeze(spec))


def obj(name, ctor, *hist):
    return ('obj', 'dppy.' + name, sweep.freeze(ctor), tuple((m, sweep.freeze(s)) for m, s in hist))


# ---------------------------------------------------------------- sample points
def vec(r, n, lo=-2.0, hi=2.0):
    return Arr((n,), [r.uniform(lo, hi) for _ in range(n)])


def mat(r, m, n, lo=-2.0, hi=2.0):
    return Arr((m, n), [r.uniform(lo, hi) for _ in range(m * n)])


def consts_about(path, param):
    """numbers the conditions of a path compare expressions of a parameter with"""
    out = []
    for x in path:
        t = x[4] if len(x) > 4 else None
        if isinstance(t, Term) and any(s.op == 'param' and s.args[0] == param for s in subterms(t)):
            out += [s.args[0] for s in subterms(t) if s.op == 'const' and isinstance(s.args[0], (int, float)) and not isinstance(s.args[0], bool)]
    return out


def adjust(vals, path, r):
    """move some scalar parameters next to the constants the path compares them with"""
    vals = dict(vals)
    for k, v in vals.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            cs = [c for c in consts_about(path, k) if abs(c) < 400]
            if cs:
                c = r.choice(cs)
                vals[k] = int(c + r.choice((-1, 0, 1, 2))) if isinstance(v, int) else c + r.choice((-0.5, 0.5, -0.1, 0.1, 1.5, 3.0)) * max(1.0, abs(c)) * r.random()
                if isinstance(v, int) and vals[k] < 0:
                    vals[k] = v
    return vals


def nudge(vals, r):
    def f(x):
        if isinstance(x, float):
            return x * (1 + .004 * (r.random() - .5))
        if isinstance(x, Arr) and len(x.shape) == 1 and all(isinstance(v, float) for v in x.data):
            return Arr(x.shape, [f(v) for v in x.data])
        return x
    return {k: f(x) if k != 'dims' else x for k, x in vals.items()}


def holds(ev, path, free=None):
    """do the conditions of the path hold?  True / False / None (unknown); conditions at nodes accepted by `free` that cannot be evaluated are ignored"""
    unknown = False
    for x in path:
        t, b = (x[4], x[2]) if len(x) > 4 else (None, None)
        if t is None:
            unknown = unknown or not (free and free(x[1]))
            continue
        try:
            v = ev(t)
            if isinstance(v, Arr):
                if len(v.data) != 1:
                    raise pit.NotEval('array condition')
                v = v.data[0]
            if isinstance(v, tuple):
                v = len(v)
            if bool(v) != bool(b):
                return False
        except pit.NotEval:
            unknown = unknown or not (free and free(x[1]))
    return None if unknown else True


def run(r, form, tries=300, need=24):
    """analyse the entry; returns (findings, number of formulas decided, notes)"""
    p = r.p
    found, decided, notes = [], 0, []
    r.keep = True
    seen = watch(p, form) if form.calls else []
    runs = r.run(form.task)
    for k in ('ext_', 'call'):
        p.hooks.pop(k, None)
    jobs = [(res, st, v, goals(r, form, res, st, v, notes)) for res in runs if not res.fail for st, v in res.rets]
    jobs += [(runs[-1], st, None, iter([(what, spec, path_of(st), t)])) for what, spec, st, t in seen] if runs else []
    for res in runs:
        if res.fail:
            notes.append('%s: not analysed (%s)' % (form.key, res.fail))
    if True:
        for res, st, v, todo in jobs:
            for what, spec, path, t in todo:
                if t is None:
                    found.append(mk(p, form, res, what, st, 'is not set to the documented value', None))
                    continue
                ok = bad = 0
                why, wit = '', None
                rnd = random.Random('%s|%s' % (form.key, what))
                for i in range(tries):
                    vals = form.points(rnd)
                    if i % 3 == 2 or i > 20:
                        vals = adjust(vals, path, rnd)
                    env, names = bind(vals)
                    if form.env:
                        e2, n2 = form.env(vals, rnd)
                        env.update(e2)
                        names.update(n2)
                    try:
                        if any(not a(names) for a in form.assume):
                            continue
                    except Exception:
                        continue
                    d = pit.Draws(str(i))
                    h = holds(pit.Ev(env, d, form.hook), path)
                    if h is False:
                        continue
                    c = pit.compare(t, spec, env, names, seed=str(i), hook=form.hook, post=form.post, tol=form.tol)
                    if c is True:
                        ok += 1
                    elif c is False:
                        if h is None:
                            why = COND
                            continue
                        bad += 1
                        wit = {k: x for k, x in vals.items()}
                        if bad >= 2:
                            break
                        for j in range(8):      # a second point close to the first one
                            v2 = nudge(vals, rnd)
                            env, names = bind(v2)
                            if form.env:
                                e2, n2 = form.env(v2, rnd)
                                env.update(e2)
                                names.update(n2)
                            if holds(pit.Ev(env, pit.Draws('%d.%d' % (i, j)), form.hook), path) and \
                                    pit.compare(t, spec, env, names, seed='%d.%d' % (i, j), hook=form.hook, post=form.post, tol=form.tol) is False:
                                bad += 1
                                break
                    else:
                        why = c
                    if ok + bad >= need:
                        break
                if bad >= 2:
                    found.append(mk(p, form, res, what, st, 'differs from the documented formula', (t, spec, wit)))
                elif ok and why != COND:
                    decided += 1
                elif why:
                    notes.append('%s (%s): undecided: %s' % (form.key, what, why))
    return found, decided, notes


def watch(p, form):
    """record the arguments of the calls the form speaks of: (name, position or keyword, formula)"""
    seen = []

    def ext(p, n, st, name, pos, kw):
        for pat, arg, spec in form.calls:
            if name == pat or name.endswith('.' + pat):
                for k in arg if isinstance(arg, tuple) else (arg,):
                    v = kw.get(k) if isinstance(k, str) else pos[k] if k < len(pos) else None
                    if v is not None:
                        seen.append(('argument %s of %s' % (k, pat), spec, st, p.tm(st, v)))
                        break

    def call(p, n, st, data):
        for pat, arg, spec in form.calls:
            for k in arg if isinstance(arg, tuple) else (arg,):
                if data['name'].endswith('.' + pat) and data['args'].get(k) is not None:
                    seen.append(('argument %s of %s' % (k, pat), spec, st, p.tm(st, data['args'][k])))
                    break
    p.hooks['ext_'] = ext
    p.hooks['call'] = call
    return seen


def goals(r, form, res, st, v, notes):
    """(what, formula, path, term): one for every wanted value; a third component of a want item calls the function found there"""
    p = r.p
    for w in form.want:
        if len(w) == 2:
            yield w[0], w[1], path_of(st), target(p, st, res, v, w[0])
            continue
        f = value(p, st, res, v, w[0])
        if f is None or not any(a[0] in ('f', 'bm') for a in f.atoms):
            notes.append('%s (%s): not a function' % (form.key, w[0]))
            continue
        run = r.d.call(form.key, f, dict(sweep.freeze(w[2])), st.clone(), label=form.key, keep=True)
        if run.fail:
            notes.append('%s (%s): call not analysed (%s)' % (form.key, w[0], run.fail))
        for s2, v2 in run.rets:
            yield w[0] + '()', w[1], path_of(s2), p.tm(s2, v2)


def value(p, st, res, v, what):
    if what == 'return':
        return v
    if what.startswith('return.'):
        o = p.the_obj(st, v)
        i = int(what[7:])
        return o.items[i] if o is not None and o.items is not None and i < len(o.items) else None
    cur = res.recv
    if cur is None:
        return None
    for a in what.split('.'):
        o = p.the_obj(st, cur)
        if o is None or not o.attrs or a not in o.attrs:
            return None
        cur = o.attrs[a]
    return cur


def bind(vals):
    env, names = {}, {}
    for k, v in vals.items():
        if k != 'dims':
            env[T('param', k)] = v
            if isinstance(v, pit.Poly):
                env['user:' + k] = v
            names[k.split('.')[-1]] = v
    for k, n in vals.get('dims', {}).items():
        env[T('dim', k)] = n
        names[k] = n
    return env, names


def target(p, st, res, v, what):
    if what == 'return':
        return p.tm(st, v)
    if what.startswith('return.'):
        o = p.the_obj(st, v)
        i = int(what[7:])
        if o is not None and o.items is not None and i < len(o.items):
            return p.tm(st, o.items[i])
        return T('idx', p.tm(st, v), C(i))
    cur = res.recv
    if cur is None:
        return None
    for a in what.split('.'):
        o = p.the_obj(st, cur)
        if o is None or not o.attrs or a not in o.attrs:
            return None
        cur = o.attrs[a]
    return p.tm(st, cur)


def mk(p, form, res, what, st, msg, ex):
    where, fn_ = anchor(p, form)
    subject = 'the value returned' if what.startswith('return') else 'attribute %s' % what
    text = '%s: %s %s' % (sweep.label(form.task), subject, msg)
    if ex:
        t, spec, wit = ex
        text += ' [%s]; extracted: %s; documented: %s' % (', '.join('%s=%s' % (k, short(x)) for k, x in (wit or {}).items()), show(t, 7)[:300], (spec if isinstance(spec, str) else '').strip().replace('\n', '; ')[:300])
    return sweep.finding('formula', where, fn_, form.key + ':' + what, text, sweep.label(form.task))


def short(x):
    return '%.4g' % x if isinstance(x, float) else repr(x)[:40]


def anchor(p, form):
    t = form.task
    f = p.find_fn(t[1]) if t[0] == 'fn' else p.find_method(t[1] + '.' + (t[3][-1][0] if t[3] else '__init__'))
    if f is None:
        return (t[1], 0), t[1].replace('dppy.', '')
    return p.where(f[1].node, f[1].mod), f[1].qual
