"""C19: every option a public function accepts reaches the computation it controls.

The abstract interpreter tags the value of every argument of the entry point and follows the tags through assignments, arithmetic, containers,
closures, library calls and attributes of the object.  For each public function and method, in each mode and for each kernel representation, every
option that is given a value must reach a sink: the value returned, the arguments of a draw or the construction of a random stream, the number of
iterations of a loop, the argument of a user supplied function, a drawing of matplotlib, or the condition of a branch that is not just the guard of
a raise.  For sampling methods the same holds for the options given to the constructor (beta, base, theta, x_0, graph, jacobi_params, ...), whose
copy in the attributes of the object does not count.  Options a mode documents as unused are listed in UNUSED below.

Numeric options are analysed once more with the explicit value 0: if 0 reaches nothing, and its truth value was tested on the way, it is treated as
"not given".

Two rules look at the declarations: a default written in a docstring (numpy style ":type x: int, default 10" and the option lists
"``'max_iter'`` (int, default 1000)") is the default of the signature, or of the params.get of the function, or of the function the options are
forwarded to; and at no call inside the package are two arguments passed in each other's place (f(a, b) where the parameters are (b, a)).
"""
import ast
import os
import re
from sa import sweep
from sa.engine import V
from sa.sweep import ev_finding, finding, label, freeze

TITLE = 'every option reaches the computation it controls'
LEVEL = 'other'
RULE = 'interprocedural taint of every argument: each option given must reach a sink in every mode; explicit 0 included'
MAX_STATES = 8
PLOT = ('plot', 'hist', 'plot_kernel', 'plot_graph', 'plot_vs_ref', 'plot_diagram', 'display_ref_measure')

# (entry suffix, option, condition on the spec) documented not to have an effect there
UNUSED = [
    ('UST.sample', 'root', lambda sp, cs: sp.get('mode', "c:'Wilson'") not in ("c:'Wilson'", "c:'Aldous-Broder'", 'default')),     # the root only matters for the walks
    ('JacobiEnsemble.sample_banded_model', ('a', 'b'), lambda sp, cs: given(sp, 'size_M1') and given(sp, 'size_M2')),
    ('JacobiEnsemble.sample_banded_model', ('size_M1', 'size_M2'), lambda sp, cs: not (given(sp, 'size_M1') and given(sp, 'size_M2'))),
    ('LaguerreEnsemble.sample_banded_model', ('shape', 'scale'), lambda sp, cs: given(sp, 'size_M')),
    ('BetaEnsemblePolynomialPotential.sample_mcmc', 'nb_mala_steps', lambda sp, cs: sp.get('sample_exact_cond') == 'c:True'),
    # 'size': size of the initial state of AD and E, drawn when no s_init is given; AED starts from any size
    ('FiniteDPP.sample_mcmc', 'size', lambda sp, cs: given(sp, 's_init') or sp.get('mode') not in ("c:'AD'", "c:'E'") or cs.get('projection') == 'c:True'),
    ('FiniteDPP.sample_mcmc_k_dpp', 'size', lambda sp, cs: given(sp, 's_init')),
    ('mcmc_sampling.dpp_sampler_mcmc', 'size', lambda sp, cs: given(sp, 's_init') or sp.get('mode') not in ("c:'AD'", "c:'E'")),
]
# constructor options that only select a representation or are recorded
CTOR_SKIP = ('kernel_type', 'projection', 'L_eval_X_data')


def given(sp, k):
    return sp.get(k, 'none') not in ('none', 'default')


def parts(t):
    if t[0] == 'fn':
        return t[1].replace('dppy.', '').split('.', 0)[0], dict(t[2]), {}
    m, sp = t[3][-1] if t[3] else ('__init__', t[2])
    return t[1].split('.')[-1] + '.' + m, dict(sp), dict(t[2])


def plots(t):
    return bool(t[0] == 'obj' and t[3] and t[3][-1][0] in PLOT)


def alone(ts):
    """the tasks, and the MCMC ones without initial state or limits in every mode, so that the size is what counts"""
    seen = set()
    for t in ts:
        yield t
        entry, sp, cs = parts(t)
        if entry.endswith(('.sample_mcmc', '.sample_mcmc_k_dpp', 'dpp_sampler_mcmc')) and 'nb_iter' in sp and 'zonotope' not in str(sp.get('mode')):
            for m in (("c:'AD'", "c:'E'", "c:'AED'") if 'k_dpp' not in entry else ('default',)):
                d = {k: v for k, v in sp.items() if k not in ('s_init', 'T_max', 'lin_obj', 'x_0')}
                d.update(mode=m, size='int')
                for e in (d, {**d, 'T_max': 'float'}):
                    u = (t[0], t[1], freeze(e)) if t[0] == 'fn' else (t[0], t[1], t[2], t[3][:-1] + ((t[3][-1][0], freeze(e)),))
                    if u not in seen:
                        seen.add(u)
                        yield u


def tasks(tier):
    rs = 'rng' if tier == 'quick' else None
    seen, per = set(), {}
    for t in alone(list(sweep.fn_tasks(rs=rs)) + list(sweep.obj_tasks(rs=rs))):
        if plots(t):
            continue
        yield ('live', '', t)
        entry, sp, cs = parts(t)
        if t[0] == 'obj' and t[3] and t[3][-1][0] in ('sample_full_model', 'sample_banded_model') and cs.get('beta') in ('int', 'float'):
            for b in (0, 2) if t[3][-1][0] == 'sample_banded_model' else (1, 2, 4):     # one algorithm for each value
                yield ('live', '', (t[0], t[1], freeze({**cs, 'beta': 'c:%d' % b}), t[3]))
        for k, d in sp.items():
            if k == 'random_state' or not isinstance(d, str):
                continue
            z = {'int': 'c:0', 'float': 'c:0.0'}.get(next((q for q in d.split('|') if q in ('int', 'float')), None))
            if z is None:
                continue
            new = freeze({**sp, k: z})
            if t[0] == 'fn':
                u = (t[0], t[1], new)
            elif t[3]:
                u = (t[0], t[1], t[2], t[3][:-1] + ((t[3][-1][0], new),))
            else:
                u = (t[0], t[1], new, t[3])
            key = (entry, k, sp.get('mode'), given(sp, 's_init'))
            if (k, u) not in seen and (tier != 'quick' or per.get(key, 0) < 2):
                seen.add((k, u))
                per[key] = per.get(key, 0) + 1
                yield ('zero', k, u)


def guards(p, mod):
    """nodes of the conditions whose only purpose is to raise"""
    c = p.__dict__.setdefault('_guard_nodes', {})
    if mod not in c:
        s = c[mod] = set()
        for n in ast.walk(p.modtrees.get(mod, ast.Module([], []))):
            if isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for x in n.body + n.orelse):
                s.update(ast.walk(n.test))
                s.add(n)
            elif isinstance(n, ast.Assert):
                s.update(ast.walk(n))
    return c[mod]


def live(r, run):
    """(tags that reach a sink, tags that reach the condition of a guard)"""
    p, s, b = r.p, set(), set()
    rec = run.recv if all(not v.atoms or v.atoms == {('c', 'NoneType', None)} for _, v in run.rets) else None
    for st, v in run.rets:
        s |= v.tags
        s |= p.captured(st, v)
        for x in (v, rec) if rec is not None else (v,):
            for l in sweep.reach(st, x):
                o = st.heap.get(l)
                if o is not None:
                    s |= o.tags
                    for y in list((o.attrs or {}).values()) + [o.elem] + list(o.items or ()):
                        if isinstance(y, V):
                            s |= y.tags | p.captured(st, y)
    for e in run.events:
        if e.kind in ('draw', 'rngnew', 'iter', 'usercall') or e.kind == 'ext' and e.data['name'].startswith(('matplotlib', 'builtins.print')):
            s.update(e.data.get('tags') or ())
        elif e.kind == 'branch':
            (b if e.node in guards(p, e.mod) else s).update(e.data.get('tags') or ())
    return s, b


def judge(r, task, res):
    kind, opt, t = task
    res['label'] = ('' if kind == 'live' else 'zero %s: ' % opt) + label(t)
    entry, sp, cs = parts(t)
    s, b, n, zero = set(), set(), 0, []
    runs = r.run(t)
    for run in runs:
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        if run.fail:
            res['notes'].append('not analysed: %s: %s' % (label(t), run.fail))
            return
        if not run.rets:
            continue
        n += 1
        x, y = live(r, run)
        s |= x
        b |= y
        zero += [e for e in run.events if e.kind == 'zerotest' and ('p', opt) in e.data['tags']] if kind == 'zero' else []
    if not n:
        return
    mode = sp.get('mode') or sp.get('haar_mode') or ''
    mode = mode[2:].strip("'\"") if mode.startswith('c:') else ''

    if cs.get('beta', '').startswith('c:'):
        mode = (mode + ' ' if mode else '') + 'beta=' + cs['beta'][2:]

    def unused(k):
        return any(entry.endswith(x) and (k == y or isinstance(y, tuple) and k in y) and c(sp, cs) for x, y, c in UNUSED)

    if kind == 'zero':
        res['obligations'] += 1
        if ('p', opt) not in s and ('p', opt) not in b and zero and not unused(opt):
            res['findings'].append(ev_finding(r.p, 'explicit-zero', zero[0], '%s: %s' % (entry.split('.')[-1], opt),
                                              'an explicit %s=0 is tested for truth and then has no effect: it is taken for "not given"' % opt, label(t)))
        return
    for k, d in sp.items():
        if d in ('none', 'default') or k in ('random_state', 'rng') or (isinstance(d, str) and d.startswith('c:')):
            continue
        res['obligations'] += 1
        if ('p', k) in s or unused(k):
            continue
        res['findings'].append(finding('ignored-option', where(r, t), entry, k + (':' + mode if mode else ''),
                                       'the option %s has no effect%s%s' % (k, ' in mode %s' % mode if mode else '', ': it is only validated' if ('p', k) in b else ''), label(t)))
    if t[0] == 'obj' and t[3] and t[3][-1][0].startswith('sample') and not t[1].endswith('GinibreEnsemble'):
        for k, d in cs.items():
            if d in ('none', 'default') or d.startswith('c:') or k in CTOR_SKIP or k in sp:
                continue
            res['obligations'] += 1
            if ('p', k) not in s:
                res['findings'].append(finding('ignored-ctor-option', where(r, t), entry, k + (':' + mode if mode else ''),
                                               'the sample does not depend on %s given to the constructor%s' % (k, ' in mode %s' % mode if mode else ''), label(t)))


def where(r, t):
    q = t[1] if t[0] == 'fn' else t[1] + '.' + (t[3][-1][0] if t[3] else '__init__')
    a = r.p.find_fn(q) if t[0] == 'fn' else r.p.find_method(q)
    f = a[1] if isinstance(a, tuple) and len(a) > 1 else a
    return r.p.where(f.node, f.mod) if getattr(f, 'node', None) is not None else ''


# ------------------------------------------------------------------ declarations
LIT = re.compile(r"(None|True|False|-?\d+(?:\.\d+)?(?:[eE]-?\d+)?|'[^']*'|\"[^\"]*\")(?![\w(])")


def literal(s):
    s = re.sub(r'^[\s`:=]*(?:is\s+|to\s+)?(?:math:)?[`=\s]*', '', s)
    m = LIT.match(s)
    if m:
        try:
            return (ast.literal_eval(m.group(1)),)
        except (ValueError, SyntaxError):
            pass


def const_of(n):
    try:
        return (ast.literal_eval(n),)
    except (ValueError, SyntaxError, TypeError):
        return None


def clash(doc, got):
    """both defaults are known and differ (types compared loosely; None in the code may stand for a default set later)"""
    d, g = doc[0], got[0]
    if g is None or d is None:
        return d is None and g is not None
    if isinstance(d, bool) or isinstance(g, bool):
        return isinstance(d, bool) and isinstance(g, bool) and d != g
    if isinstance(d, str) or isinstance(g, str):
        return isinstance(d, str) and isinstance(g, str) and d.lower() != g.lower()
    return d != g


def documented(doc, params):
    """{option: (default,)} written in a docstring"""
    out = {}
    last = None
    for part in re.split(r'(?m)^\s*(?=:(?:param|type|returns?|rtype)\b)', doc):
        m = re.match(r':(param|type)\s+(\w+)\s*:(.*)', part, re.S)
        if not m:
            continue
        k, name, txt = m.groups()
        if k == 'param':
            last = name
        if k == 'type':
            d = re.search(r'\bdefault\b(.{1,40})', txt, re.S)
            v = literal(d.group(1)) if d else None
            tgt = name if name in params and name == last else last if last in params else name
            if v is not None and name in (last, tgt):
                out[tgt] = v
    for m in re.finditer(r"``'(\w+)'``\s*\((?:[^()]*,\s*)?default\b([^()]*)\)", doc):
        v = literal(m.group(2))
        if v is not None:
            out.setdefault(m.group(1), v)
    return out


def static(repo, tier):
    findings, obl, docs, calls = [], 0, 0, 0
    trees = {}
    base = os.path.join(repo, 'dppy')
    for f in sorted(os.listdir(base)):
        if f.endswith('.py'):
            try:
                trees[f[:-3]] = ast.parse(open(os.path.join(base, f), encoding='utf-8').read())
            except SyntaxError:
                continue
    fns = {}        # simple name -> [(module, qual, node, is method)]
    for m, t in trees.items():
        for c in t.body:
            for n, cls in [(c, None)] if isinstance(c, ast.FunctionDef) else [(x, c.name) for x in getattr(c, 'body', ()) if isinstance(x, ast.FunctionDef)] if isinstance(c, ast.ClassDef) else []:
                fns.setdefault(n.name, []).append((m, (cls + '.' if cls else '') + n.name, n, cls))

    def sig(n, cls):
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        df = dict(zip(names[::-1], a.defaults[::-1]))
        df.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
        static_ = any(getattr(d, 'id', '') == 'staticmethod' for d in n.decorator_list)
        return (names[1:] if cls and not static_ else names), df, [x.arg for x in a.kwonlyargs], a

    def defaults(n, cls, key, depth=0, seen=()):
        """the defaults the code gives the option `key` in n or where it forwards its keyword options"""
        names, df, _, a = sig(n, cls)
        if key in df:
            return [(const_of(df[key]), df[key].lineno)]
        if key in names or a.kwarg is None:
            return []
        out = []
        kw = a.kwarg.arg
        for c in ast.walk(n):
            if not isinstance(c, ast.Call):
                continue
            if isinstance(c.func, ast.Attribute) and c.func.attr in ('get', 'pop') and isinstance(c.func.value, ast.Name) and c.func.value.id == kw and c.args \
                    and const_of(c.args[0]) == (key,):
                d = const_of(c.args[1]) if len(c.args) > 1 else (None,)
                if d is not None:
                    out.append((d, c.lineno))
        if not out and depth < 4:
            for c in ast.walk(n):
                if isinstance(c, ast.Call) and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == kw for k in c.keywords):
                    nm = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
                    if len(fns.get(nm, ())) == 1 and nm not in seen and not any(k.arg == key for k in c.keywords):
                        m2, q2, n2, c2 = fns[nm][0]
                        out += defaults(n2, c2, key, depth + 1, seen + (nm,))
        return out

    for nm, lst in fns.items():
        for m, q, n, cls in lst:
            doc = ast.get_docstring(n, clean=False)
            names, df, kwo, a = sig(n, cls)
            if doc:
                for k, d in documented(doc, names + kwo).items():
                    got = defaults(n, cls, k)
                    for g, ln in got:
                        if g is None:
                            continue
                        obl += 1
                        docs += 1
                        if clash(d, g):
                            findings.append(finding('default', 'dppy/%s.py:%d' % (m, n.lineno), '%s.%s' % (m, q), k, 'the default of %s is %r, documented as %r' % (k, g[0], d[0]), '%s.%s' % (m, q)))
            # arguments in each other's place
            for c in ast.walk(n):
                if not isinstance(c, ast.Call):
                    continue
                f2 = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ('self', 'cls') else None
                if len(fns.get(f2, ())) != 1:
                    continue
                m2, q2, n2, c2 = fns[f2][0]
                pn, _, kwo2, a2 = sig(n2, c2 if isinstance(c.func, ast.Attribute) else None)
                got = {}
                for i, x in enumerate(c.args):
                    if isinstance(x, ast.Starred):
                        break
                    if i < len(pn):
                        got[pn[i]] = x
                for k in c.keywords:
                    if k.arg:
                        got[k.arg] = k.value
                calls += 1
                obl += 1
                nms = {k: x.id for k, x in got.items() if isinstance(x, ast.Name)}
                for k, v in nms.items():
                    if v != k and nms.get(v) == k and k < v and n2 is not n:
                        findings.append(finding('swapped-arguments', 'dppy/%s.py:%d' % (m, c.lineno), '%s.%s' % (m, q), '%s: %s, %s' % (f2, k, v),
                                                'the call of %s passes %s as %s and %s as %s' % (f2, v, k, k, v), '%s.%s' % (m, q)))
    return dict(findings=findings, obligations=obl, notes=[], summary=dict(documented_defaults_compared=docs, internal_calls_compared=calls, functions=sum(map(len, fns.values()))))
