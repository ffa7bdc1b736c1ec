"""Required and optional packages.  (a) Import statements that run when a module is imported may only name the standard library, the requirements of setup.py and the package itself, unless a
handler of ImportError stands by.  (b) The import of every module of the package as the first one is replayed statement by statement over the syntax trees: a name imported from a module
that is itself still being imported must be bound already.  (c) Importing runs no draws, prints, or calls that change the process.  (d) Every public entry is interpreted abstractly in the
configurations in which optional packages are not installed (their import statements inside functions raise ModuleNotFoundError): the exception must not reach the caller, a handler that
raises must raise ValueError with the name of the package, names that the failed statement would have bound must not be used, and only the features documented to need the package may
fail."""
import ast
import os
import sys
from sa import sweep
from sa.sweep import fn_tasks, obj_tasks, finding, ev_finding, receivers, label

TITLE = 'optional packages'
LEVEL = 'other'
RULE = 'an obligation is one import statement, one module imported first, or one exit of an entry analysed without the optional packages'
# features that need an optional package (extras of setup.py)
NEEDS = {'networkx': ('UST(', 'ust_sampler_'), 'cvxopt': ('zonotop',)}
PARTS = {'mpl_toolkits': 'matplotlib'}
CAUGHT = ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException')
STD = set(sys.stdlib_module_names)


def required(repo):
    req = {'numpy', 'scipy', 'matplotlib'}
    try:
        for n in ast.walk(ast.parse(open(os.path.join(repo, 'setup.py'), encoding='utf8').read())):
            if isinstance(n, ast.keyword) and n.arg == 'install_requires' and isinstance(n.value, ast.List):
                got = {e.value for e in n.value.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)}
                req = {x.split('=')[0].split('<')[0].split('>')[0].split('[')[0].split('!')[0].split('~')[0].split(';')[0].strip().lower() for x in got}
    except (OSError, SyntaxError):
        pass
    return req


def sources(repo):
    out = {}
    for root, _, files in os.walk(os.path.join(repo, 'dppy')):
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(root, f)
                m = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                try:
                    out[m[:-9] if m.endswith('.__init__') else m] = (ast.parse(open(p, encoding='utf8').read()), os.path.relpath(p, repo), m.endswith('.__init__'))
                except SyntaxError:
                    pass
    return out


def imported(n, mod, init):
    """dotted names of the modules an import statement needs"""
    if isinstance(n, ast.Import):
        return [a.name for a in n.names]
    m = n.module or ''
    if n.level:
        base = mod.split('.')
        base = base if init else base[:-1]
        base = base[:len(base) - (n.level - 1)]
        m = '.'.join(base + ([m] if m else []))
    return [m]


def optional(repo):
    req = required(repo)
    out = set()
    for m, (tree, path, init) in sources(repo).items():
        for n in ast.walk(tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in imported(n, m, init):
                    t = x.split('.')[0]
                    if t and t != 'dppy' and t not in STD and PARTS.get(t, t) not in req and t != '__future__':
                        out.add(t)
    return out


def names(tree):
    return [e for e in ([tree] if not isinstance(tree, ast.Tuple) else tree.elts)]


def catches(h):
    if h.type is None:
        return True
    return any((isinstance(t, ast.Name) and t.id in CAUGHT) or (isinstance(t, ast.Attribute) and t.attr in CAUGHT) for t in names(h.type))


def top_level(body, guarded=False):
    """statements that run on import: (statement, guarded by a handler)"""
    for s in body:
        yield s, guarded
        if isinstance(s, ast.Try):
            g = guarded or any(catches(h) for h in s.handlers)
            yield from top_level(s.body, g)
            for h in s.handlers:
                yield from top_level(h.body, guarded)
            yield from top_level(s.orelse, guarded)
            yield from top_level(s.finalbody, guarded)
        elif isinstance(s, ast.If):
            if isinstance(s.test, ast.Name) and s.test.id == 'TYPE_CHECKING' or isinstance(s.test, ast.Attribute) and s.test.attr == 'TYPE_CHECKING':
                continue
            if isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__':
                continue
            yield from top_level(s.body, guarded)
            yield from top_level(s.orelse, guarded)
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            yield from top_level(s.body, guarded)
        elif isinstance(s, ast.ClassDef):
            yield from top_level(s.body, guarded)


def binds(s):
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return {s.name}
    if isinstance(s, ast.Import):
        return {a.asname or a.name.split('.')[0] for a in s.names}
    if isinstance(s, ast.ImportFrom):
        return {a.asname or a.name for a in s.names}
    if isinstance(s, (ast.Try, ast.If, ast.For, ast.While, ast.With)):
        return {x.id for x in ast.walk(s.target)} if isinstance(s, ast.For) and isinstance(s.target, ast.Name) else set()
    return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def evaluated(s):
    """expressions of a top-level statement that are evaluated on import"""
    if isinstance(s, ast.FunctionDef):
        return s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d is not None]
    if isinstance(s, ast.ClassDef):
        return s.decorator_list + s.bases
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr)):
        return [s.value] if s.value is not None else []
    return []


class Replay:
    def __init__(self, src):
        self.src, self.bound, self.done, self.bad = src, {}, set(), []

    def load(self, m, chain=()):
        if m in self.bound or m not in self.src:
            return
        parent = m.rpartition('.')[0]
        if parent:
            self.load(parent, chain)
        if m in self.bound:
            return
        self.bound[m] = b = set()
        tree, path, init = self.src[m]
        alias = {}
        chain = chain + (m,)
        for s, guarded in top_level(tree.body):
            for e in evaluated(s):
                for x in ast.walk(e):
                    if isinstance(x, ast.Lambda):
                        break
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in alias:
                        self.need(alias[x.value.id], x.attr, path, x, chain, guarded)
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.load(a.name, chain)
                    if a.asname and a.name in self.src:
                        alias[a.asname] = a.name
            elif isinstance(s, ast.ImportFrom):
                d = imported(s, m, init)[0]
                self.load(d, chain)
                for a in s.names:
                    if d in self.src and a.name != '*':
                        if d + '.' + a.name in self.src:
                            self.load(d + '.' + a.name, chain)
                            alias[a.asname or a.name] = d + '.' + a.name
                        else:
                            self.need(d, a.name, path, s, chain, guarded)
            b |= binds(s)
        self.done.add(m)

    def need(self, d, name, path, node, chain, guarded):
        if d in self.done or d not in self.bound or name in self.bound[d] or guarded or name.startswith('__'):
            return
        self.bad.append(('%s:%d' % (path, node.lineno), chain[-1], '%s.%s' % (d, name), 'when %s is imported first, %s is imported while %s is being imported and does not define %s yet (imports: %s)'
                         % (chain[0], chain[-1], d, name, ' -> '.join(chain))))


EFFECTS = ('numpy.random.', 'os.', 'warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'matplotlib.pyplot.', 'matplotlib.use', 'matplotlib.rc', 'builtins.print', 'builtins.open', 'builtins.input',
           'random.', 'time.sleep', 'sys.', 'subprocess.', 'numpy.seterr', 'logging.')


def static(repo, tier):
    src, req = sources(repo), required(repo)
    out, n = [], 0
    for m, (tree, path, init) in sorted(src.items()):
        for s, guarded in top_level(tree.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for x in imported(s, m, init):
                    t = x.split('.')[0]
                    n += 1
                    if not guarded and t and t not in STD and t != 'dppy' and PARTS.get(t, t) not in req:
                        out.append(finding('required', '%s:%d' % (path, s.lineno), m, t, 'importing %s needs %s, which is not a requirement of the package (setup.py)' % (m, t)))
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('print', 'input', 'exit', 'exec'):
                out.append(finding('import-effect', '%s:%d' % (path, s.lineno), m, s.value.func.id, 'importing %s calls %s' % (m, s.value.func.id)))
        rp = Replay(src)
        rp.load(m)
        n += 1
        for where, fn_, detail, msg in rp.bad[:1]:
            out.append(finding('order', where, fn_, detail, msg))
    return dict(findings=out, obligations=n, notes=[])


def tasks(tier):
    yield ('import',)
    for t in fn_tasks(rs='rng'):
        yield (None, t)
    for t in obj_tasks(rs='rng', ctor=True, opts=tier == 'thorough', proj=(False,)):
        yield (None, t)


def setup(r):
    r.optional = optional(r.p.repo)
    r.req = None


def handlers(p):
    """raise statements inside handlers of failed imports: {node: (top-level packages, handler)}; names bound by these imports"""
    h = p.__dict__.get('_imp')
    if h is None:
        inside, bound = {}, {}
        for m, tree in p.modtrees.items():
            for n in ast.walk(tree):
                if isinstance(n, ast.Try):
                    pk = [x.split('.')[0] for s in n.body for i in ast.walk(s) if isinstance(i, (ast.Import, ast.ImportFrom)) for x in ([a.name for a in i.names] if isinstance(i, ast.Import) else [i.module or ''])]
                    if pk:
                        for q in n.handlers:
                            if catches(q):
                                for s in q.body:
                                    for x in ast.walk(s):
                                        if isinstance(x, ast.Raise):
                                            inside[x] = pk
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for b in binds(n):
                        bound.setdefault(b, set()).update([a.name.split('.')[0] for a in n.names] if isinstance(n, ast.Import) else [(n.module or '').split('.')[0]])
        h = p._imp = (inside, bound)
    return h


def text(p, ex):
    """constant parts of the message of a raise statement"""
    return ' '.join(x.value for x in ast.walk(ex.node) if isinstance(x, ast.Constant) and isinstance(x.value, str))


def judge(r, task, res):
    p = r.p
    if task[0] == 'import':
        res['label'] = 'import'
        for e in p.import_events:
            if e.kind == 'ext' and any(str(e.data.get('name', '')).startswith(x) for x in EFFECTS) or e.kind in ('draw', 'rngnew', 'print'):
                res['findings'].append(ev_finding(p, 'import-effect', e, str(e.data.get('name', e.kind)), 'importing the module calls %s' % e.data.get('name', e.kind), 'import'))
        return
    t = task[1]
    res['label'] = label(t)
    inside, bound = handlers(p)
    p.hooks['import_'] = lambda name: name.split('.')[0] in r.optional
    r.cache.clear()
    try:
        runs = list(r.run(t))
    finally:
        p.hooks.pop('import_', None)
        r.cache.clear()
    whole = label(t)
    for run in runs:
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        lost = {e.data['name'].split('.')[0]: e for e in run.events if e.kind == 'importfail'}
        if not lost:
            continue
        res['obligations'] += len(run.rets) + len(run.raises)
        for e in run.events:
            if e.kind == 'unbound' and bound.get(e.data['name'], set()) & set(lost):
                res['findings'].append(ev_finding(p, 'unbound', e, e.data['name'], 'without the package %s, the name %s is used although its import failed' % (sorted(bound[e.data['name']])[0], e.data['name']), run.label))
        for st, ex in run.raises:
            if ex.name in ('ImportError', 'ModuleNotFoundError'):
                pk = sorted(lost)[0]
                if isinstance(ex.node, (ast.Import, ast.ImportFrom)):
                    pk = next((x for x in lost if x in ast.dump(ex.node)), pk)
                res['findings'].append(ev_finding(p, 'escapes', lost[pk], pk, 'without the package %s, the call fails with %s instead of ValueError' % (pk, ex.name), run.label))
            elif ex.node in inside and set(inside[ex.node]) & set(lost):
                pk = sorted(set(inside[ex.node]) & set(lost))[0]
                msg = text(p, ex)
                if ex.name != 'ValueError':
                    res['findings'].append(ev_finding(p, 'escapes', lost[pk], pk, 'without the package %s, the call fails with %s instead of ValueError' % (pk, ex.name), run.label))
                elif msg and pk.lower() not in msg.lower():
                    res['findings'].append(ev_finding(p, 'message', lost[pk], pk, 'without the package %s, the call fails with a message that does not name it' % pk, run.label))
                elif not any(x in whole for x in NEEDS.get(pk, ())):
                    res['findings'].append(ev_finding(p, 'needed', lost[pk], pk, 'without the package %s, which this feature does not need, the call fails' % pk, run.label))
