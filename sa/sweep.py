"""Tasks (one public call, or a short history of calls on one object) and the judges that decide a property on them.

A task is a plain tuple, so that worker processes can take it from a queue:
    ('fn', function, spec)                              one call of a public function
    ('obj', class, constructor spec, history)           construct, then the calls of the history; the last one is judged
with spec = ((argument, domain), ...) and history = ((method, spec), ...)."""
import os
import sys
import time
import json
import traceback
import importlib
import multiprocessing
from .drive import (Driver, FN, CL, FD, REPS, FD_METHODS, EXACT_OPTS, KDPP_OPTS, alternatives, B, RS)
from .engine import mkv, V, O, locs, sole, cval, NONE, const, Giveup
from .terms import T, C, show, subterms, contains, Term

SAMPLERS = ('sample', 'sample_full_model', 'sample_banded_model', 'sample_mcmc', 'sample_exact', 'sample_exact_k_dpp', 'sample_mcmc_k_dpp')
SHOWERS = ('plot', 'hist', 'info', '__str__', 'plot_kernel', 'plot_graph', 'plot_diagram', 'normalize_points')


def freeze(spec):
    return tuple(sorted(spec.items()))


def spec_str(spec):
    return ', '.join('%s=%s' % (k, v[2:] if v.startswith('c:') else v) for k, v in spec if v != 'default')


def label(task):
    if task[0] == 'fn':
        return '%s(%s)' % (task[1].split('.', 1)[1], spec_str(task[2]))
    return '%s(%s)%s' % (task[1].rsplit('.', 1)[-1], spec_str(task[2]), ''.join('; .%s(%s)' % (m, spec_str(s)) for m, s in task[3]))


# ------------------------------------------------------------------ enumerations
def fn_tasks(only=None, rs=None, full=False, fixed=None):
    for name, args in FN.items():
        if only is not None and not only(name):
            continue
        seen = set()
        for spec in alternatives(args, full, fixed, rs):
            t = ('fn', name, freeze(spec))
            if t not in seen:
                seen.add(t)
                yield t


def fd_spec(rep, projection=False, kernel_type=None):
    kt, dom = REPS[rep]
    return {'kernel_type': 'c:%r' % (kernel_type or kt), 'projection': 'c:%r' % projection, rep: dom}


def receivers(only=None, fd=True, rest=True, proj=(False, True), reps=None, first=False):
    if rest:
        for cname, (ctor, methods) in CL.items():
            if only and not only(cname):
                continue
            for i, spec in enumerate(alternatives(ctor)):
                if i and first:
                    break
                yield cname, freeze(spec)
    if fd and (not only or only(FD)):
        for rep in REPS:
            if reps and rep not in reps:
                continue
            for pr in proj:
                yield FD, freeze(fd_spec(rep, pr))


def rep_of(spec):
    for k, _ in spec:
        if k in REPS:
            return k
    return None


def is_proj(spec):
    return dict(spec).get('projection') == 'c:True'


def methods(cname):
    return FD_METHODS if cname == FD else CL[cname][1]


def method_specs(cname, m, full=False, rs=None, opts=True, fixed=None):
    args = methods(cname).get(m)
    if args is None:
        return
    seen = set()
    for spec in alternatives(args, full, fixed, rs):
        out = [spec]
        if cname == FD and m in ('sample_exact', 'sample_exact_k_dpp'):
            mode = eval(spec['mode'][2:]) if spec['mode'].startswith('c:') else None
            o = (EXACT_OPTS if m == 'sample_exact' else KDPP_OPTS).get(mode)
            if o:
                out = []
                for s2 in alternatives(o):
                    d = dict(spec)
                    d.update(s2)
                    out.append(d)
                    if not opts:
                        break
        if cname == FD and m == 'sample_mcmc' and 'zonotope' in spec['mode']:
            d = {k: v for k, v in spec.items() if k not in ('s_init', 'size')}
            d.update(lin_obj='default', x_0='default')
            e = dict(d)
            e.update(lin_obj='arr:N', x_0='arr:R')
            out = [d, e]
        for d in out:
            if m == 'sample_mcmc' and cname.endswith('BetaEnsemblePolynomialPotential'):
                for a in ('c:True', 'c:False'):
                    for b, c in (('c:False', 'c:False'), ('c:True', 'c:False'), ('c:False', 'c:True')):
                        d2 = dict(d)
                        d2.update(sample_exact_cond=a, return_chain_of_eig_vals=b, return_chain_of_lambda_max=c)
                        f = freeze(d2)
                        if f not in seen:
                            seen.add(f)
                            yield f
                continue
            f = freeze(d)
            if f not in seen:
                seen.add(f)
                yield f


def applicable(cname, cspec, m, spec):
    """requests that only make sense for some representations (others are judged by the mode property)"""
    if cname != FD:
        return True
    rep = rep_of(cspec)
    mode = dict(spec).get('mode', '')
    if mode in ("c:'vfx'", "c:'alpha'"):
        return rep == 'L_eval_X_data'
    if mode == "c:'zonotope'":
        return rep == 'A_zono'
    if mode in ("c:'Chol'", "c:'Schur'"):
        return is_proj(cspec) and dict(cspec)['kernel_type'] == "c:'correlation'"
    return True


def obj_tasks(only=None, meths=None, rs=None, fd=True, rest=True, proj=(False, True), reps=None, opts=True, full=False, first=False,
              filt=applicable, ctor=False):
    for cname, cspec in receivers(only, fd, rest, proj, reps, first):
        if ctor:
            yield ('obj', cname, cspec, ())
        for m in methods(cname):
            if meths is not None and not meths(m):
                continue
            for spec in method_specs(cname, m, full, rs, opts):
                if filt is None or filt(cname, cspec, m, spec):
                    yield ('obj', cname, cspec, ((m, spec),))


def base_sample(cname, m, rs='rng', **over):
    """the usual call of sampler m"""
    s = dict(next(iter(method_specs(cname, m, rs=rs, opts=False))))
    s.update(over)
    return (m, freeze(s))


# ------------------------------------------------------------------ running tasks
class Runner:
    def __init__(self, repo, max_states=12, budget=400000, hooks=None, sources=None):
        self.d = Driver(repo, sources=sources, max_states=max_states, budget=budget)
        self.p = self.d.p
        self.cache = {}
        self.hooks = hooks or {}
        self.merge = 1      # states kept after an earlier call on the same object
        self.keep = False   # keep the conditions of earlier calls in the path of the judged one
        self.d.cap = 8
        self.env0 = self.p.env_copy()
        self.envs = {}

    def start(self):
        self.p.env_set(self.env0)
        return self.p.start()

    def prefix(self, cname, cspec, hist):
        """states after construction and the calls of hist: [(state, receiver)]; None if not available"""
        key = (cname, cspec, hist)
        r = self.cache.get(key)
        if r is not None:
            self.p.env_set(self.envs[key])
            return r
        if not hist:
            run = self.d.construct(cname, dict(cspec), st=self.start())
            out = [] if run is None else [(st, v) for st, v in run.rets]
            if len(out) > 8:
                out = [(self.p.join_all([s for s, _ in out], ('hist', key)), out[0][1])]
            res = (run, out)
        else:
            _, before = self.prefix(cname, cspec, hist[:-1])
            m, spec = hist[-1]
            out, runs = [], []
            for st, recv in before:
                run = self.d.invoke(cname, m, recv, st.clone(), dict(spec), label=m, prefix='s%d.' % len(hist))
                if run is None:
                    break
                runs.append(run)
                out += [(s, recv) for s, _ in run.rets]
            if self.keep and len(out) > self.merge:
                out = out[:self.merge]
            elif self.merge and len(out) > self.merge:
                out = [(self.p.join_all([s for s, _ in out], ('hist', key)), out[0][1])]
            res = (runs, out)
        self.cache[key] = res
        self.envs[key] = self.p.env_copy()
        return res

    def run(self, task):
        """runs of the judged call: list of Run (one per state before the call)"""
        if task[0] == 'fn':
            atom = self.p.find_fn(task[1])
            if atom is None:
                self.d.missing.add(task[1])
                return []
            f = mkv([atom], T('fn', task[1]))
            return [self.d.call(task[1], f, dict(task[2]), self.start(), label=label(task))]
        _, cname, cspec, hist = task
        if not hist:
            self.cache.pop((cname, cspec, ()), None)
            run, _ = self.prefix(cname, cspec, ())
            self.cache.pop((cname, cspec, ()), None)
            if run is not None:
                run.label = label(task)
            return [run] if run is not None else []
        _, before = self.prefix(cname, cspec, hist[:-1])
        m, spec = hist[-1]
        runs = []
        for st, recv in before:
            s0 = st.clone()
            s0.cnt, s0.ctl = (), frozenset()
            if not self.keep:
                s0.path = None
            r = self.d.invoke(cname, m, recv, s0.clone(), dict(spec), label=label(task), prefix='s%d.' % len(hist) if len(hist) > 1 else '')
            if r is None:
                break
            r.st0 = s0
            r.events = list(r.events)
            runs.append(r)
        return runs


def finding(rule, where, fn, detail, msg, entry='', trace=()):
    """a violation: `key` identifies the construct (rule, file, function, detail) independently of line numbers"""
    return dict(rule=rule, where=where, fn=fn, detail=detail, msg=msg, entry=entry, trace=list(trace),
                key='%s|%s|%s' % (rule, fn, detail))


def ev_finding(p, rule, e, detail, msg, entry=''):
    return finding(rule, p.where(e.node, e.mod), e.fn, detail, msg, entry, ['call path: ' + ' -> '.join(e.stack)] if e.stack else [])


# ------------------------------------------------------------------ reachability in the heap
def reach(st, v, skip=()):
    """all locations reachable from a value"""
    seen, todo = set(), list(v.ls or ())
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        o = st.heap.get(l)
        if o is None:
            continue
        if o.attrs:
            for k, x in o.attrs.items():
                if isinstance(x, V) and x.ls:
                    todo += x.ls
                if isinstance(k, V) and k.ls:
                    todo += k.ls
        if o.items:
            for x in o.items:
                if isinstance(x, V) and x.ls:
                    todo += x.ls
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, V) and y.ls:
                            todo += y.ls
        if isinstance(o.elem, V) and o.elem.ls:
            todo += o.elem.ls
        todo += list(o.bases)
    return seen


def obj(st, v):
    ls = locs(v)
    return st.heap.get(ls[0]) if len(ls) == 1 and len(v.atoms) == 1 else None


def attr(st, recv, name):
    o = obj(st, recv)
    return o.attrs.get(name) if o is not None and o.attrs is not None else None


# ------------------------------------------------------------------ the process pool
_W = {}


def _init(mod, repo, tier):
    m = importlib.import_module(mod)
    _W['m'] = m
    _W['r'] = Runner(repo, max_states=getattr(m, 'MAX_STATES', {}).get(tier, 12) if isinstance(getattr(m, 'MAX_STATES', None), dict) else 12,
                     budget=1500000 if tier == 'thorough' else 250000)
    _W['r'].d.cap = 60 if tier == 'thorough' else 10
    if hasattr(m, 'setup'):
        m.setup(_W['r'])


def _work(task):
    m, r = _W['m'], _W['r']
    t0 = time.time()
    res = dict(task=task, label=label(task) if task[0] in ('fn', 'obj') else str(task), findings=[], obligations=0, notes=[], runs=0, paths=0, raises=0)
    r.d.failed.clear()
    r.d.missing.clear()
    try:
        m.judge(r, task, res)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res['notes'].append('judge: %s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
    for k, v in r.d.failed.items():
        res['notes'].append('%s: %s' % (k, v))
    for k in r.d.missing:
        res['notes'].append('entry not found: %s' % k)
    res['wall'] = time.time() - t0
    return res


def sweep(modname, repo, tier, tasks, procs=8, limit=600):
    """all task results, in a pool of processes"""
    tasks = list(tasks)
    if not tasks:
        return [], 0
    ctx = multiprocessing.get_context('fork')
    out, t0 = [], time.time()
    # tasks on the same object stay together (the construction is shared)
    groups = {}
    for t in tasks:
        groups.setdefault(t[:3] if t[0] == 'obj' else t, []).append(t)
    chunks = []
    for g in groups.values():
        n = max(1, min(6, len(g)))
        chunks += [g[i:i + n] for i in range(0, len(g), n)]
    lost = 0
    pool = ctx.Pool(procs, _init, (modname, repo, tier))
    try:
        it = pool.imap_unordered(_chunk, chunks)
        for _ in range(len(chunks)):
            left = limit - (time.time() - t0)
            try:
                out += it.next(max(left, 0.05))
            except multiprocessing.TimeoutError:
                break
        lost = len(tasks) - len(out)
    finally:
        pool.terminate()
        pool.join()
    return out, lost


def _chunk(ts):
    return [_work(t) for t in ts]
