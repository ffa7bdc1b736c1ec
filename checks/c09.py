"""Definedness analysis: every public entry is interpreted abstractly with all documented argument kinds and modes, and
every name, attribute, call signature, unpacking, format string and raise statement met on any path is checked; a whole-program
pass over the syntax trees checks names against their scopes and library attributes and calls against the installed
libraries' interfaces, also in code no entry reaches."""
import os
import re
import ast
import json
import string
import builtins
import symtable
import subprocess
from sa import sweep, lib
from sa.sweep import fn_tasks, obj_tasks, ev_finding, finding, receivers, methods, method_specs, applicable, freeze, base_sample, SAMPLERS, SHOWERS
from sa.drive import FD

LEVEL = 'other'
RULE = 'an obligation is one evaluated name, attribute access, call, unpacking, format operation or raise statement'


def tasks(tier):
    for t in fn_tasks(rs='rng'):
        yield t
    for t in fn_tasks(rs='rng'):
        if t[0] == 'fn' and any(k == 'mode' or k == 'haar_mode' for k, _ in t[2]):
            sp = dict(t[2])
            sp[[k for k in sp if k in ('mode', 'haar_mode')][0]] = 'strx'
            yield ('fn', t[1], freeze(sp))
    for t in obj_tasks(rs='rng', ctor=True, opts=tier == 'thorough', filt=None):
        yield t
    for cname, cspec in receivers(proj=(False,), first=True):
        ss = [m for m in methods(cname) if m in SAMPLERS]
        for m in ss[:1]:
            for m2 in methods(cname):
                for sp in method_specs(cname, m2, rs='rng', opts=False):
                    if applicable(cname, cspec, m2, sp) and (m2 not in SAMPLERS or tier == 'thorough'):
                        yield ('obj', cname, cspec, (base_sample(cname, m), (m2, sp)))
    # unknown names of kernels and modes
    yield ('obj', FD, freeze({'kernel_type': 'strx', 'K': 'arr:N,N'}), ())
    yield ('obj', FD, freeze({'kernel_type': "c:'correlation'"}), ())
    yield ('obj', FD, freeze({'kernel_type': "c:'likelihood'"}), ())
    yield ('obj', FD, freeze({'kernel_type': "c:'correlation'", 'projection': 'strx', 'K': 'arr:N,N'}), ())
    for cname, cspec in receivers(proj=(False,), first=True):
        for m in methods(cname):
            for sp in method_specs(cname, m, rs='rng', opts=False):
                d = dict(sp)
                for k in ('mode', 'haar_mode', 'kernel_type'):
                    if k in d:
                        d[k] = 'strx'
                        yield ('obj', cname, cspec, ((m, freeze(d)),))
                break
    yield ('obj', 'dppy.beta_ensembles.GinibreEnsemble', freeze({'beta': 'float'}), ())


CATCH = {'undefined': ('NameError', 'UnboundLocalError'), 'unbound': ('NameError', 'UnboundLocalError'), 'noattr': ('AttributeError',), 'attr_on_none': ('AttributeError', 'TypeError'),
         'badcall': ('TypeError',), 'dupkw': ('TypeError',), 'unpack': ('ValueError', 'TypeError'), 'badimport': ('ImportError',), 'badraise': ('TypeError',), 'none_op': ('TypeError',),
         'notcallable': ('TypeError',), 'nokey': ('KeyError', 'LookupError'), 'strformat': ('IndexError', 'KeyError', 'LookupError'), 'strmod': ('TypeError',), 'rngcall': ('AttributeError', 'TypeError')}


def guarded(e):
    return bool(e.guard & ({'*', 'Exception', 'BaseException'} | set(CATCH.get(e.kind, ()))))


def fmt_problem(fmt, npos, kw):
    """does '...'.format(npos arguments, kw) fail?"""
    try:
        parts = list(string.Formatter().parse(fmt))
    except ValueError as x:
        return 'malformed format string (%s)' % x
    auto, need, names = 0, 0, set()
    todo = [(f, sp) for _, f, sp, _ in parts if f is not None]
    while todo:
        f, sp = todo.pop(0)
        head = re.split(r'[.\[]', f, maxsplit=1)[0]
        if head == '':
            auto += 1
        elif head.isdigit():
            need = max(need, int(head) + 1)
        else:
            names.add(head)
        if sp and '{' in sp:
            todo = [(f2, sp2) for _, f2, sp2, _ in string.Formatter().parse(sp) if f2 is not None] + todo
    need = max(need, auto)
    if need > npos:
        return 'needs %d positional arguments, %d given' % (need, npos)
    if names - set(kw) and '**' not in kw:
        return 'needs the keyword argument %s' % sorted(names - set(kw))[0]


def mod_problem(left, items):
    n = len([x for x in re.findall(r'%(?:[-#0 +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?[diouxXeEfFgGcrsa%])', left) if not x.endswith('%')])
    if re.search(r'%\(|\*', left):
        return None
    if items is not None and n != len(items):
        return 'needs %d values, %d given' % (n, len(items))


def message(p, e):
    """(detail, text) when the event is a certain failure"""
    k, d = e.kind, e.data
    if k == 'undefined':
        return d['name'], 'name %s is not defined' % d['name']
    if k == 'noattr':
        return '%s.%s' % (d['cls'], d['name']), '%s has no attribute %s' % (d['cls'], d['name'])
    if k == 'badcall':
        return '%s: %s' % (d['callee'], d['problem']), 'call of %s: %s' % (d['callee'], d['problem'])
    if k == 'dupkw':
        return d['name'], 'keyword argument %s given twice' % d['name']
    if k == 'unpack':
        return '%d from %d' % (d['want'], d['got']), '%d names are assigned from %d values' % (d['want'], d['got'])
    if k == 'badimport':
        return '%s.%s' % (d['module'], d['name']), 'cannot import %s from %s' % (d['name'], d['module'])
    if k == 'badraise':
        return d['what'][:60], 'raise of %s, which is not an exception' % d['what']
    if k == 'notcallable':
        return d['what'][:60], '%s is called but is not callable' % d['what']
    if k == 'nokey':
        return repr(d['key']), 'key %r is not in the dictionary' % (d['key'],)
    if k == 'attr_on_none' and d.get('sure') and not any(t[0] == 'p' for t in d['tags'] if isinstance(t, tuple)):
        return d['name'], ('item of' if d['name'] == '[]' else 'attribute %s of' % d['name']) + ' a value that is None here'
    if k == 'none_op' and not any(t[0] == 'p' for t in d['tags'] if isinstance(t, tuple)):
        return d['op'], 'operation %s on None' % d['op']
    if k == 'strformat' and isinstance(d['fmt'], str) and d['npos'] is not None:
        x = fmt_problem(d['fmt'], d['npos'], d['kw'])
        if x:
            return d['fmt'][:60], 'format string %r %s' % (d['fmt'][:60], x)
    if k == 'raise' and d['nargs'] == 0 and d['name'] in ('ValueError', 'TypeError', 'NotImplementedError'):
        return d['name'], '%s is raised without a message' % d['name']


def judge(r, task, res):
    p = r.p
    for run in r.run(task):
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        res['obligations'] += p.steps
        exits = {}
        for _, x in run.raises:
            exits.setdefault(x.node, set()).add(x.name)
        for e in run.events:
            if guarded(e):
                continue
            if e.kind == 'none_op' and task[0] == 'obj' and len(task[3]) == 1 and task[3][0][0] not in SAMPLERS:
                continue            # helpers that need a sample, called on a new object
            if e.kind == 'rngcall' and r.rng_sigs:
                sg = r.rng_sigs.get(e.data['name'])
                if sg is None and e.data['name'] not in lib.RNG_METHODS:
                    res['findings'].append(ev_finding(p, 'rngmethod', e, e.data['name'], 'RandomState has no method %s' % e.data['name'], run.label))
                elif sg is not None and sg[1] and e.data['npos'] is not None:
                    pr = sig_problem([q for q in sg[1] if q[0] != 'self'], e.data['npos'], e.data['kw'], True, True)
                    if pr:
                        res['findings'].append(ev_finding(p, 'rngmethod', e, '%s: %s' % (e.data['name'], pr), 'RandomState.%s: %s' % (e.data['name'], pr), run.label))
                continue
            m = message(p, e)
            if m:
                res['findings'].append(ev_finding(p, e.kind, e, m[0], m[1], run.label))
            elif e.kind == 'unbound' and e.node in exits and always_unbound(p, e, run):
                res['findings'].append(ev_finding(p, 'unbound', e, e.data['name'], 'the local name %s has no value when this is reached' % e.data['name'], run.label))


def always_unbound(p, e, run):
    """the name is unassigned on every path that reaches this expression (a path condition cannot make it assigned)"""
    return not any(x.kind == 'maybe_unbound' and x.node is e.node for x in run.events) and (e.node, e.ctx) not in p.bound_names


def setup(r):
    r.p.bound_names = set()

    def seen(p, n, st):
        p.bound_names.add((n, p.ctx))
    r.p.hooks['name_ok'] = seen
    info, _ = query(['numpy.random.RandomState'] + ['numpy.random.RandomState.' + x for x in lib.RNG_METHODS])
    r.rng_sigs = {k.rsplit('.', 1)[1]: v for k, v in info.items() if v[0] == 'ok' and k.count('.') == 3}


# ------------------------------------------------------------------ whole-program pass
LIBQUERY = r"""
import sys, json, inspect, importlib, re
sys.dont_write_bytecode = True
req = json.load(sys.stdin)
def get(name):
    parts = name.split('.')
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:i]))
        except Exception as x:
            if i == 1:
                return 'nomod', None
            continue
        for j, q in enumerate(parts[i:]):
            try:
                o = getattr(o, q)
            except AttributeError:
                return 'missing', '.'.join(parts[:i + j + 1])
            except Exception:
                return 'nomod', None
        return 'ok', o
    return 'nomod', None
def sig(o):
    try:
        s = inspect.signature(o)
        return [[q.name, q.kind.value, q.default is not q.empty] for q in s.parameters.values()]
    except Exception:
        pass
    d = (getattr(o, '__doc__', '') or '').strip().split(chr(10))[0]
    m = re.match(r'^\w+\((.*)\)', d)
    if not m or '[' in m.group(1) or '...' in m.group(1):
        return None
    try:
        ns = {}
        exec('def f(%s): pass' % m.group(1), {'__builtins__': {}}, ns)
        return [[q.name, q.kind.value, q.default is not q.empty] for q in inspect.signature(ns['f']).parameters.values()]
    except Exception:
        return None
out = {}
for n in req:
    try:
        st, o = get(n)
        out[n] = [st, sig(o) if st == 'ok' and callable(o) else o if st == 'missing' else None]
    except Exception as x:
        out[n] = ['nomod', None]
json.dump(out, sys.stdout)
"""
PYTHONS = ('/opt/venv/bin/python', '/opt/veriftools/pyvenv/bin/python')
SOFT = {'sklearn', 'cvxopt', 'tqdm', 'dppy'}


def query(names):
    for py in PYTHONS:
        try:
            r = subprocess.run([py, '-c', LIBQUERY], input=json.dumps(sorted(names)), capture_output=True, text=True, timeout=120,
                               env={'PATH': '/usr/bin:/bin', 'MPLBACKEND': 'Agg', 'HOME': '/nonexistent', 'MPLCONFIGDIR': '/nonexistent'})
            if r.returncode == 0:
                return json.loads(r.stdout), py
        except Exception:
            continue
    return {}, None


def sig_problem(sig, npos, kws, star, dstar):
    """why a call does not fit a parameter list [[name, kind, has default]]"""
    pos = [q for q in sig if q[1] in (0, 1)]
    var = any(q[1] == 2 for q in sig)
    vkw = any(q[1] == 4 for q in sig)
    if npos > len(pos) and not var:
        return '%d positional arguments given, at most %d taken' % (npos, len(pos))
    names = {q[0] for q in sig if q[1] in (1, 3)}
    for k in kws:
        if k not in names and not vkw:
            return 'unexpected keyword argument %r' % k
        if k in [q[0] for q in pos[:npos]] and k in names:
            return 'argument %r given twice' % k
    if not star and not dstar:
        for i, q in enumerate(pos):
            if not q[2] and i >= npos and q[0] not in kws:
                return 'missing argument %r' % q[0]
        for q in sig:
            if q[1] == 3 and not q[2] and q[0] not in kws:
                return 'missing keyword argument %r' % q[0]
    return None


def ast_sig(fn, bound):
    a = fn.args
    pos = a.posonlyargs + a.args
    nd = len(a.defaults)
    s = [[x.arg, 0 if x in a.posonlyargs else 1, i >= len(pos) - nd] for i, x in enumerate(pos)]
    if bound:
        s = s[1:]
    if a.vararg:
        s.append([a.vararg.arg, 2, True])
    s += [[x.arg, 3, d is not None] for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    if a.kwarg:
        s.append([a.kwarg.arg, 4, True])
    return s


def load(repo):
    out = {}
    root = os.path.join(repo, 'dppy')
    for dirp, _, files in os.walk(root):
        for f in sorted(files):
            if f.endswith('.py'):
                q = os.path.join(dirp, f)
                m = os.path.relpath(q, repo)[:-3].replace(os.sep, '.')
                if m.endswith('.__init__'):
                    m = m[:-9]
                try:
                    src = open(q, encoding='utf8').read()
                    out[m] = (os.path.relpath(q, repo), ast.parse(src), src)
                except SyntaxError:
                    pass
    return out


def callargs(n):
    star = any(isinstance(a, ast.Starred) for a in n.args)
    return (len([a for a in n.args if not isinstance(a, ast.Starred)]), [k.arg for k in n.keywords if k.arg], star, any(k.arg is None for k in n.keywords))


BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__', '__path__', '__class__', '__annotations__', '__debug__', '__qualname__', '__module__'}


def scopes(src, path):
    out, todo = [], [symtable.symtable(src, path, 'exec')]
    while todo:
        t = todo.pop()
        out.append(t)
        todo += t.get_children()
    return out


def static(repo, tier):
    mods = load(repo)
    findings, notes = [], []
    n_names = n_attrs = n_calls = n_int = 0
    # 1. every name against its scope
    for m, (path, tree, src) in mods.items():
        ss = scopes(src, path)
        top = {s.get_name() for s in ss[0].get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for t in ss:
            for s in t.get_symbols():
                if t.get_type() == 'function' and s.is_global() and s.is_assigned():
                    top.add(s.get_name())
        if any(isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names) for x in ast.walk(tree)):
            notes.append('%s: star import, names not checked' % path)
            continue
        bad = {}
        for t in ss:
            for s in t.get_symbols():
                n_names += 1
                if s.is_referenced() and (s.is_global() or t.get_type() == 'module') and s.get_name() not in top and s.get_name() not in BUILTINS:
                    bad.setdefault(s.get_name(), t.get_name())
        for name, sc in sorted(bad.items()):
            node = next((x for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id == name), tree)
            if name_guarded(tree, node):
                continue
            findings.append(finding('undefined', '%s:%s' % (path, getattr(node, 'lineno', 0)), m + '.' + sc, name, 'name %s is not defined in any enclosing scope' % name))
    # 2. library attributes and calls
    uses, calls = {}, []
    for m, (path, tree, src) in mods.items():
        for fn, alias, node in lib_uses(tree, m):
            uses.setdefault(alias, []).append((path, fn, node))
    for m, (path, tree, src) in mods.items():
        for fn, alias, node in lib_uses(tree, m, calls=True):
            calls.append((alias, path, fn, node))
    info, py = query(set(uses) | {c[0] for c in calls} | {'numpy.random.RandomState.' + x for x in sorted(rng_names(mods))})
    if py is None:
        notes.append('installed libraries could not be inspected: library attributes and calls are not checked')
    for alias, lst in sorted(uses.items()):
        n_attrs += len(lst)
        st = info.get(alias)
        if st and st[0] == 'missing' and alias.split('.')[0] not in SOFT:
            for path, fn, node in lst:
                if not node_guarded(mods, path, node, ('AttributeError', 'ImportError', 'ModuleNotFoundError')):
                    findings.append(finding('libattr', '%s:%d' % (path, node.lineno), fn, alias, 'the installed library has no %s' % st[1]))
    for alias, path, fn, node in calls:
        st = info.get(alias)
        n_calls += 1
        if st and st[0] == 'ok' and st[1] is not None:
            pr = sig_problem(st[1], *callargs(node))
            if pr and not node_guarded(mods, path, node, ('TypeError',)):
                findings.append(finding('libcall', '%s:%d' % (path, node.lineno), fn, '%s: %s' % (alias, pr), 'call of %s: %s' % (alias, pr)))
    # 3. calls of package functions and attributes of self
    exports = {m: module_defs(tree) for m, (path, tree, src) in mods.items()}
    for m, (path, tree, src) in mods.items():
        imported = {}
        for x in tree.body:
            if isinstance(x, ast.ImportFrom) and x.module and x.module.split('.')[0] == 'dppy':
                for a in x.names:
                    if x.module in exports and a.name != '*':
                        if a.name in exports[x.module]:
                            imported[a.asname or a.name] = exports[x.module][a.name]
                        elif x.module + '.' + a.name not in mods and not defined_in(mods[x.module][1], a.name):
                            findings.append(finding('badimport', '%s:%d' % (path, x.lineno), m, '%s.%s' % (x.module, a.name), 'cannot import %s from %s' % (a.name, x.module)))
        env = dict(exports[m])
        env.update(imported)
        env = {k: v for k, v in env.items() if v is not None}
        for fn, node, shadow in calls_in(tree, m):
            if isinstance(node.func, ast.Name) and node.func.id in env and node.func.id not in shadow:
                d = env[node.func.id]
                n_int += 1
                if isinstance(d, ast.FunctionDef) and not d.decorator_list:
                    pr = sig_problem(ast_sig(d, False), *callargs(node))
                    if pr and not node_guarded(mods, path, node, ('TypeError',)):
                        findings.append(finding('badcall', '%s:%d' % (path, node.lineno), fn, '%s: %s' % (d.name, pr), 'call of %s: %s' % (d.name, pr)))
    return dict(findings=findings, obligations=n_names + n_attrs + n_calls + n_int, notes=notes,
                summary=dict(modules=len(mods), names=n_names, library_attributes=n_attrs, library_calls=n_calls, internal_calls=n_int, interpreter=py or ''))


def rng_names(mods):
    return ()


def defined_in(tree, name):
    return any((isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name) or (isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name)
               or (isinstance(x, ast.alias) and (x.asname or x.name).split('.')[0] in (name, '*')) for x in ast.walk(tree))


def module_defs(tree):
    """functions defined exactly once at module level"""
    out = {}
    for x in tree.body:
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out[x.name] = None if x.name in out else x
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in out and any(x in ast.walk(s) for s in tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))):
            out[x.id] = None
    return out


def local_names(f):
    a = f.args
    s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    s |= {x.arg for x in (a.vararg, a.kwarg) if x}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            s.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f:
            s.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                s.add((al.asname or al.name).split('.')[0])
        elif isinstance(x, ast.arg):
            s.add(x.arg)
    return s


def calls_in(tree, m):
    out = []

    def walk(n, name, shadow):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                nm = name + '.' + c.name if hasattr(c, 'name') else name
                walk(c, nm, shadow | local_names(c) if not isinstance(c, ast.Lambda) else shadow | {x.arg for x in c.args.args})
            elif isinstance(c, ast.ClassDef):
                walk(c, name + '.' + c.name, shadow)
            else:
                if isinstance(c, ast.Call):
                    out.append((name, c, shadow))
                walk(c, name, shadow)
    walk(tree, m, frozenset())
    return out


def lib_uses(tree, m, calls=False):
    """(function, dotted library name, node) of attribute chains (or calls) rooted in an imported library name"""
    out = []

    def bind(stmts, env):
        env = dict(env)
        for s in stmts:
            for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Import):
                    for a in x.names:
                        env[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
                    for a in x.names:
                        env[a.asname or a.name] = x.module + '.' + a.name
        return env

    def dotted(n, env):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if isinstance(n, ast.Name) and n.id in env:
            return '.'.join([env[n.id]] + parts[::-1])

    def walk(n, name, env):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in c.decorator_list + c.args.defaults + [x for x in c.args.kw_defaults if x]:
                    walk_expr(d, name, env)
                inner = {k: v for k, v in env.items() if k not in local_names(c)}
                walk_body(c.body, name + '.' + c.name, bind(c.body, inner))
            elif isinstance(c, ast.ClassDef):
                walk(c, name + '.' + c.name, env)
            elif isinstance(c, ast.Lambda):
                inner = {k: v for k, v in env.items() if k not in {x.arg for x in c.args.args}}
                walk_expr(c.body, name, inner)
            else:
                visit(c, name, env)

    def visit(c, name, env):
        if isinstance(c, ast.Attribute) and not calls:
            d = dotted(c, env)
            if d:
                out.append((name, d, c))
                return
        elif isinstance(c, ast.Name) and not calls and isinstance(c.ctx, ast.Load) and c.id in env and '.' in env[c.id]:
            out.append((name, env[c.id], c))
        elif isinstance(c, ast.Call) and calls:
            d = dotted(c.func, env)
            if d:
                out.append((name, d, c))
        walk(c, name, env)

    def walk_expr(x, name, env):
        visit(x, name, env)

    def walk_body(b, name, env):
        for s in b:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                walk(ast.Module(body=[s], type_ignores=[]), name, env)
            else:
                visit(s, name, env)
    env = bind(tree.body, {})
    # a name that the module also assigns otherwise is not the library any more
    for x in ast.walk(tree):
        if isinstance(x, (ast.Global,)):
            for g in x.names:
                env.pop(g, None)
    walk_body(tree.body, m, env)
    return [(f, d, n) for f, d, n in out if d.split('.')[0] != 'dppy']


def enclosing_handlers(tree, node):
    """exception names handled around a node, in its function"""
    names = set()

    def walk(n, hs):
        if n is node:
            names.update(hs)
            return True
        for c in ast.iter_child_nodes(n):
            h2 = hs
            if isinstance(n, ast.Try) and c in n.body:
                h2 = set(hs)
                for h in n.handlers:
                    if h.type is None:
                        h2.add('*')
                    else:
                        h2 |= {ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
            if walk(c, h2):
                return True
        return False
    walk(tree, set())
    return names


def name_guarded(tree, node):
    return bool(enclosing_handlers(tree, node) & {'*', 'Exception', 'BaseException', 'NameError'})


def node_guarded(mods, path, node, names):
    for p, tree, _ in mods.values():
        if p == path:
            return bool(enclosing_handlers(tree, node) & ({'*', 'Exception', 'BaseException'} | set(names)))
    return False
