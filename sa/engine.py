"""Abstract interpreter over the package's syntax trees.

Flow sensitive, partitioned by path, interprocedural by abstract inlining (so that extracting, inlining or renaming
private helpers does not change what is seen).  The abstract domain: per value a set of possible constants, heap objects
and callables, a value-number term and dependency tags; an abstract heap with allocation sites and recency; facts
about terms (truth of opaque conditions, bounds on linear forms).  Loops are analysed to a fixpoint with phi terms.
Nothing of the analysed package is imported or run, and no path is handed to a solver."""
import ast
import os
import sys
import builtins
from fractions import Fraction
from . import lib
from .terms import T, C, Term, poly_of, lin_key, padd, ratfunc, rat_equal, show, subterms, isconst

sys.setrecursionlimit(20000)


class Giveup(Exception):
    """the analysis of one entry exceeded its budget"""


# ------------------------------------------------------------------ values
_vtab = {}


class V:
    __slots__ = ('atoms', 'term', 'tags', 'ls')

    def __repr__(self):
        return 'V(%s | %s%s)' % (','.join(map(str, self.atoms)), show(self.term), ' #' + ','.join(sorted(map(str, self.tags))) if self.tags else '')


NOTAGS = frozenset()


def mkv(atoms, term, tags=NOTAGS):
    atoms = frozenset(atoms)
    k = (atoms, term, tags)
    v = _vtab.get(k)
    if v is None:
        v = V()
        v.atoms, v.term, v.tags = atoms, term, tags
        ls = None
        for a in atoms:
            if a[0] == 'l':
                ls = (ls or set())
                ls.add(a[1])
            elif a[0] in ('bm', 'm') and isinstance(a[1], V) and a[1].ls:
                ls = (ls or set())
                ls |= a[1].ls
        v.ls = frozenset(ls) if ls else None
        _vtab[k] = v
    return v


def const(c, tags=NOTAGS):
    return mkv([('c', type(c).__name__, c)], C(c), tags)


NONE = const(None)
TRUE, FALSE = const(True), const(False)


def unk(term, tags=NOTAGS, ty=None):
    return mkv([('u', ty)], term, tags)


UNB = mkv([('unb', 'del')], T('unbound'))
UNB0 = mkv([('unb', 'never')], T('unbound'))


def cval(v):
    """(True, value) if the value is a single known constant"""
    if len(v.atoms) == 1:
        a = next(iter(v.atoms))
        if a[0] == 'c':
            return True, a[2]
    return False, None


def locs(v):
    return [a[1] for a in v.atoms if a[0] == 'l']


def sole(v):
    return next(iter(v.atoms)) if len(v.atoms) == 1 else None


def tagsof(*vs):
    r = NOTAGS
    for v in vs:
        if v is not None and v.tags:
            r = r | v.tags
    return r


class O:
    """heap object (immutable record; replaced on mutation)"""
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'elem', 'length', 'term', 'tags', 'bases', 'origin', 'open', 'typ', '_refs')

    def __init__(self, kind, **kw):
        self._refs = None
        self.kind = kind
        self.cls = self.attrs = self.items = self.elem = self.length = self.term = self.typ = None
        self.tags, self.bases, self.origin, self.open = NOTAGS, (), 'new', False
        for k, v in kw.items():
            setattr(self, k, v)

    def rep(self, **kw):
        o = O(self.kind)
        for s in _OSLOTS:
            setattr(o, s, getattr(self, s))
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def refs(self):
        """locations this object refers to directly"""
        r = self._refs
        if r is None:
            r = set(self.bases)
            if self.attrs:
                for k, v in self.attrs.items():
                    if isinstance(v, V) and v.ls:
                        r |= v.ls
                    if isinstance(k, V) and k.ls:
                        r |= k.ls
            for v in self.items or ():
                if isinstance(v, tuple):
                    for x in v:
                        if isinstance(x, V) and x.ls:
                            r |= x.ls
                elif isinstance(v, V) and v.ls:
                    r |= v.ls
            if isinstance(self.elem, V) and self.elem.ls:
                r |= self.elem.ls
            r = self._refs = frozenset(r)
        return r

    def key(self):
        return (self.kind, self.cls, tuple(sorted(self.attrs.items(), key=lambda x: repr(x[0]))) if self.attrs is not None else None,
                self.items, self.elem, self.length, self.term, self.tags, self.bases, self.origin, self.open)

    def same(self, o):
        return self is o or (self.kind == o.kind and self.attrs == o.attrs and self.items == o.items and self.elem is o.elem
                             and self.term is o.term and self.length is o.length and self.tags == o.tags
                             and self.bases == o.bases and self.origin == o.origin and self.cls == o.cls)

    def __repr__(self):
        return 'O(%s %s %s)' % (self.kind, self.cls or '', self.items if self.items is not None else self.attrs if self.attrs is not None else show(self.term) if self.term else '')


_OSLOTS = ('kind', 'cls', 'attrs', 'items', 'elem', 'length', 'term', 'tags', 'bases', 'origin', 'open', 'typ')


class State:
    __slots__ = ('frames', 'heap', 'facts', 'iv', 'cnt', 'dirty', 'path', 'ctl', 'cur_exc')

    def clone(self):
        s = State()
        s.frames, s.heap = dict(self.frames), dict(self.heap)
        s.facts, s.iv = dict(self.facts), dict(self.iv)
        s.cnt, s.dirty, s.path, s.ctl, s.cur_exc = self.cnt, self.dirty, self.path, self.ctl, self.cur_exc
        return s


def new_state():
    s = State()
    s.frames, s.heap, s.facts, s.iv, s.cnt, s.dirty, s.path, s.ctl, s.cur_exc = {}, {}, {}, {}, (), frozenset(), None, NOTAGS, None
    return s


class Fn:
    """function object of the package"""
    def __init__(self, node, mod, qual, cls=None):
        self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
        self.decos = []
        self.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node))
        self.locals = None

    def __repr__(self):
        return '<fn %s>' % self.qual


def own_nodes(fn):
    """nodes of a function body, not entering nested functions"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Cls:
    def __init__(self, node, mod, name):
        self.node, self.mod, self.name = node, mod, name
        self.bases, self.attrs = [], {}

    def __repr__(self):
        return '<class %s>' % self.name


class Out:
    __slots__ = ('brk', 'cont', 'ret', 'exc')

    def __init__(self):
        self.brk, self.cont, self.ret, self.exc = [], [], [], []


class Exc:
    """an exception in flight"""
    __slots__ = ('name', 'node', 'args', 'implicit', 'val')

    def __init__(self, name, node, args=(), implicit=False, val=None):
        self.name, self.node, self.args, self.implicit, self.val = name, node, args, implicit, val

    def __repr__(self):
        return 'Exc(%s@%s)' % (self.name, getattr(self.node, 'lineno', '?'))


class Event:
    __slots__ = ('kind', 'node', 'mod', 'fn', 'ctx', 'data', 'stack', 'guard')

    def __repr__(self):
        return 'Ev(%s %s:%s %s)' % (self.kind, self.mod, getattr(self.node, 'lineno', '?'), self.data)


ELEMWISE = set('numpy.' + f for f in lib.UFUNC1 | lib.UFUNC2) | {'numpy.where', 'numpy.nan_to_num', 'numpy.clip', 'numpy.round', 'numpy.abs'}


class Engine:
    def __init__(self, repo='/repo', pkg='dppy', sources=None, max_states=24, depth=14, budget=400000):
        self.repo, self.pkg = repo, pkg
        self.max_states, self.max_depth, self.budget = max_states, depth, budget
        self.loop_states = 4
        self.steps = 0
        self.hooks = {}
        self.type_of = {}       # type(x) term -> names of the possible builtin types
        self.events = []
        self._evseen = set()
        self.phis = {}
        self.shapes = {}
        self.loops = []
        self.record_loops = False
        self.uncalled = set()
        self.fns_seen = set()
        self.notes = set()
        self.cstack = []          # (Fn, ctx, callnode)
        self.site_of = {}
        self.opt_import_fail = False
        self.mods = {}
        self.modtrees = {}
        self.modfile = {}
        self.syntax_errors = []
        if sources is None:
            d = os.path.join(repo, pkg)
            sources = {}
            for root, dirs, files in os.walk(d):
                dirs[:] = [x for x in dirs if x not in ('__pycache__', 'tests', 'test')]
                for f in sorted(files):
                    if f.endswith('.py'):
                        p = os.path.join(root, f)
                        rel = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                        if rel.endswith('.__init__'):
                            rel = rel[:-9]
                        sources[rel] = (open(p, encoding='utf8').read(), os.path.relpath(p, repo))
        self.nid = {}
        self._next = 0
        for m, (src, fn) in sorted(sources.items()):
            try:
                t = ast.parse(src)
            except SyntaxError as e:
                self.syntax_errors.append((fn, str(e)))
                continue
            self.modtrees[m] = t
            self.modfile[m] = fn
            for n in ast.walk(t):
                if hasattr(n, 'lineno'):
                    self._next += 1
                    self.nid[n] = self._next
        self.base = new_state()
        self.loading = []
        for m in sorted(self.modtrees):
            self.load(m)
        self.steps = 0
        self.import_events, self.events = self.events, []
        self._evseen = set()
        for l, o in list(self.base.heap.items()):
            if o.origin == 'new':
                self.base.heap[l] = o.rep(origin='static')

    # ------------------------------------------------------------ modules
    def load(self, m):
        if m in self.mods or m not in self.modtrees:
            return
        self.mods[m] = True
        fid = ('M', m)
        self.base.frames[fid] = {'__name__': const(m), '__file__': unk(T('file', m), ty='str')}
        out = Out()
        self.fid, self.mod, self.ctx, self.curfn = fid, m, (), None
        saved = getattr(self, '_modsave', None)
        st = self.exec_block(self.modtrees[m].body, [self.base], out)
        if st:
            self.base = self.join_all(st, ('mod', m), False)
        elif out.exc:
            self.notes.add('module %s ends with %s' % (m, out.exc[0][1]))
        for q, c in list(self.classes.items()) if hasattr(self, 'classes') else []:
            pass

    classes = None

    def where(self, node, mod=None):
        return '%s:%s' % (self.modfile.get(mod or self.mod, mod or self.mod), getattr(node, 'lineno', '?'))

    unkstar = False  # the call being evaluated has a starred argument of unknown length
    guards = ()     # exception names handled by the enclosing try statements ('*': all)

    def emit(self, kind, node, st=None, **data):
        h = self.hooks.get(kind)
        if h is not None and st is not None:
            h(self, node, st, data)
        key = (kind, self.nid.get(node, id(node)), self.ctx if len(self.ctx) < 12 else self.ctx[-12:], repr(sorted(data.items(), key=lambda x: x[0])) if kind != 'call' else data.get('name'))
        if key in self._evseen:
            return
        self._evseen.add(key)
        e = Event()
        e.kind, e.node, e.mod, e.ctx, e.data = kind, node, self.mod, self.ctx, data
        e.fn = self.curfn.qual if self.curfn else self.mod
        e.stack = tuple(f.qual for f, _, _ in self.cstack)
        e.guard = frozenset().union(*self.guards) if self.guards else frozenset()
        self.events.append(e)

    # ------------------------------------------------------------ state helpers
    def getvar(self, st, name, fn=None):
        f = st.frames.get(self.fid)
        if f is not None and name in f:
            return f[name]
        return None

    def lookup(self, st, name, node):
        fid = self.fid
        f = st.frames.get(fid)
        if f is not None and name in f and name not in self.globals_decl():
            return f[name]
        # enclosing function frames
        if self.curfn is not None and self.islocal(name) and name not in self.globals_decl():
            return UNB
        e = self.closure_of(st, fid)
        while e is not None:
            f = st.frames.get(e)
            if f is not None and name in f:
                return f[name]
            e = self.closure_of(st, e)
        f = st.frames.get(('M', self.mod))
        if f is not None and name in f:
            return f[name]
        if hasattr(builtins, name):
            return mkv([('x', name)], T('ext', name))
        return None

    def closure_of(self, st, fid):
        f = st.frames.get(fid)
        if f is None:
            return None
        v = f.get('%closure')
        return v

    def globals_decl(self):
        if self.curfn is None:
            return ()
        d = getattr(self.curfn, 'globs', None)
        if d is None:
            d = set()
            for n in own_nodes(self.curfn.node):
                if isinstance(n, ast.Global):
                    d.update(n.names)
            self.curfn.globs = d
        return d

    def islocal(self, name):
        fn = self.curfn
        if fn.locals is None:
            s = set()
            a = fn.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                s.add(x.arg)
            if a.vararg:
                s.add(a.vararg.arg)
            if a.kwarg:
                s.add(a.kwarg.arg)
            nl = set()
            for n in own_nodes(fn.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        s.add((al.asname or al.name).split('.')[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    nl.update(n.names)
            # comprehension targets live in their own scope; treating them as local is harmless
            fn.locals = s - nl
        return name in fn.locals

    def setvar(self, st, name, v):
        fid = self.fid
        if name in self.globals_decl():
            self.emit('globalstore', self.curnode, st, name=name)
            fid = ('M', self.mod)
        elif self.curfn is not None and name in self.nonlocals(self.curfn):
            e = self.closure_of(st, fid)
            while e is not None:
                if name in st.frames.get(e, {}):
                    fid = e
                    break
                e = self.closure_of(st, e)
        f = dict(st.frames.get(fid, {}))
        f[name] = v
        st.frames[fid] = f

    def nonlocals(self, fn):
        d = getattr(fn, 'nonl', None)
        if d is None:
            d = set()
            for n in own_nodes(fn.node):
                if isinstance(n, ast.Nonlocal):
                    d.update(n.names)
            fn.nonl = d
        return d

    def alloc(self, st, node, kind, sub='', **kw):
        loc = ('A', self.nid.get(node, id(node)), self.ctx, kind + sub)
        if loc in st.heap:
            self.age(st, loc)
        if kw.get('term') is None:
            kw['term'] = self.site('new' + kind + sub, node)
        st.heap[loc] = O(kind, **kw)
        return loc

    def site(self, kind, node, *extra):
        return T('site', kind, self.nid.get(node, id(node)), self.ctx, *extra)

    def age(self, st, loc):
        """rename loc to its 'old' summary everywhere in the state (recency abstraction)"""
        old = loc + ('old',)
        o = st.heap.pop(loc)
        if o.term is not None and o.kind not in ('rng',):
            o = o.rep(term=T('old', str(loc[1]), loc[2], loc[3]))
        if old in st.heap:
            st.heap[old] = self.join_obj(st.heap[old], o, ('old', loc))
        else:
            st.heap[old] = o
        memo = {}

        def rv(v):
            if not isinstance(v, V) or v.ls is None or loc not in v.ls:
                return v
            r = memo.get(v)
            if r is None:
                r = memo[v] = mkv([('l', old) if a[0] == 'l' and a[1] == loc else (a[0], rv(a[1])) + a[2:] if a[0] in ('bm', 'm') else a for a in v.atoms], v.term, v.tags)
            return r

        def hit(v):
            return isinstance(v, V) and v.ls is not None and loc in v.ls
        for fid, f in list(st.frames.items()):
            g = None
            for k, v in f.items():
                if isinstance(v, V) and v.ls is not None and loc in v.ls:
                    if g is None:
                        g = dict(f)
                    g[k] = rv(v)
            if g is not None:
                st.frames[fid] = g
        for l, o in list(st.heap.items()):
            if loc not in o.refs():
                continue
            kw = {}
            if o.attrs:
                for v in o.attrs.values():
                    if isinstance(v, V) and v.ls is not None and loc in v.ls:
                        kw['attrs'] = {k: rv(v) for k, v in o.attrs.items()}
                        break
            if o.items:
                for v in o.items:
                    if isinstance(v, tuple) or hit(v):
                        it = tuple(tuple(rv(x) for x in v) if isinstance(v, tuple) else rv(v) for v in o.items)
                        if it != o.items:
                            kw['items'] = it
                        break
            if o.elem is not None and hit(o.elem):
                kw['elem'] = rv(o.elem)
            if loc in o.bases:
                kw['bases'] = tuple(sorted(set(old if b == loc else b for b in o.bases), key=repr))
            if kw:
                st.heap[l] = o.rep(**kw)

    # ------------------------------------------------------------ joins
    def phi(self, site, var, *ops):
        t = T('phi', self.sitekey(site), str(var))
        s = self.phis.setdefault(t, set())
        for o in ops:
            if o is not t:
                s.add(o)
        return t

    _sk = {}

    def sitekey(self, site):
        k = self._sk.get(site)
        if k is None:
            k = self._sk[site] = len(self._sk)
        return k

    def join_v(self, a, b, site, var, loop=False):
        if a is b:
            return a
        if isinstance(a, Term) or isinstance(b, Term):
            return self.phi(site, var, *[x for x in (a, b) if isinstance(x, Term)])
        if a is None or b is None:
            x = a or b
            y = mkv(x.atoms | {('unb', 'loop' if loop else 'path')}, self.phi(site, var, x.term), x.tags)
            return y
        atoms = a.atoms | b.atoms
        if loop and a.atoms != b.atoms:
            nums = [x for x in atoms if x[0] == 'c' and x[1] in ('int', 'float')]
            if len(nums) > 1 or (nums and any(x[0] == 'u' for x in atoms)):
                ty = 'int' if all(x[1] == 'int' for x in nums) and not any(x[0] == 'u' and x[1] != 'int' for x in atoms) else None
                atoms = frozenset(x for x in atoms if not (x[0] == 'c' and x[1] in ('int', 'float')) and x[0] != 'u') | {('u', ty)}
        us = [x for x in atoms if x[0] == 'u']
        if len(us) > 1:
            atoms = frozenset(x for x in atoms if x[0] != 'u') | {('u', None)}
        if len(atoms) > 40:
            atoms = frozenset(x for x in atoms if x[0] != 'c') | {('u', None)}
        term = a.term if a.term is b.term else self.phi(site, var, a.term, b.term)
        return mkv(atoms, term, a.tags | b.tags)

    def join_obj(self, a, b, site, loop=False):
        if a is b or a.same(b):
            return a
        kw = {}
        if a.kind != b.kind:
            return O('ext', term=self.phi(site, 'kind', a.term or T('none'), b.term or T('none')), tags=a.tags | b.tags, bases=tuple(sorted(set(a.bases) | set(b.bases), key=repr)), origin=a.origin)
        if a.attrs is not None or b.attrs is not None:
            x, y = a.attrs or {}, b.attrs or {}
            kw['attrs'] = {k: self.join_v(x.get(k), y.get(k), site, k, loop) for k in list(x) + [k for k in y if k not in x]}
        if a.items != b.items:
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                kw['items'] = tuple(self.join_v(x, y, site, 'item%d' % i, loop) for i, (x, y) in enumerate(zip(a.items, b.items)))
            else:
                ea, eb = self.elem_sum(a, site), self.elem_sum(b, site)
                kw['items'] = None
                kw['elem'] = ea if eb is None else eb if ea is None else self.join_v(ea, eb, site, 'elem', loop)
                la, lb = self.len_of_obj(a), self.len_of_obj(b)
                kw['length'] = la if la is lb else self.phi(site, 'length', la, lb)
        else:
            if a.elem is not b.elem:
                kw['elem'] = self.join_v(a.elem, b.elem, site, 'elem', loop) if a.elem is not None and b.elem is not None else (a.elem or b.elem)
            if a.length is not b.length:
                la, lb = self.len_of_obj(a), self.len_of_obj(b)
                kw['length'] = la if la is lb else self.phi(site, 'length', la, lb)
        if a.term is not b.term:
            kw['term'] = self.phi(site, 'content', a.term, b.term)
        kw['tags'] = a.tags | b.tags
        kw['open'] = a.open or b.open
        kw['bases'] = tuple(sorted(set(a.bases) | set(b.bases), key=repr))
        return a.rep(**kw)

    def elem_sum(self, o, site):
        if o.items is None:
            return o.elem
        r = None
        for v in o.items:
            r = v if r is None else self.join_v(r, v, site, 'elem')
        return r

    def len_of_obj(self, o):
        if o.items is not None:
            return C(len(o.items))
        if o.length is not None:
            return o.length
        return T('len', o.term) if o.term is not None else T('len', T('none'))

    def join(self, s, t, site, loop=False):
        if s is t:
            return s
        r = s.clone()
        joined = []
        for fid in list(s.frames):
            if fid not in t.frames:
                continue
            f, g = s.frames[fid], t.frames[fid]
            if f is g or f == g:
                continue
            h = {}
            for k in list(f) + [k for k in g if k not in f]:
                if k == '%closure':
                    h[k] = f.get(k, g.get(k))
                    continue
                h[k] = self.join_v(f.get(k), g.get(k), (site, fid), k, loop)
                if self.preds and h[k].term.op == 'phi':
                    joined.append((f.get(k), g.get(k), h[k].term))
            r.frames[fid] = h
        for fid in t.frames:
            if fid not in r.frames:
                r.frames[fid] = t.frames[fid]   # the environment of a closure that exists on one side only
        for l, o in t.heap.items():
            p = s.heap.get(l)
            if p is None:
                r.heap[l] = o
            elif p is not o:
                r.heap[l] = self.join_obj(p, o, (site, l), loop)
        r.facts = {k: v for k, v in s.facts.items() if t.facts.get(k) is v or t.facts.get(k) == v and k in t.facts}
        for a, b, phi in joined:
            for name, pred in self.preds.items():
                r.facts.pop(('pred', name, phi), None)
                if (self.vacuous(a) or self.holds_pred(s, a, name)) and (self.vacuous(b) or self.holds_pred(t, b, name)):
                    r.facts[('pred', name, phi)] = True
        r.iv = {}
        for k, a in s.iv.items():
            b = t.iv.get(k)
            if b is not None:
                lo, hi = self.hull(a, b)
                if lo is not None or hi is not None:
                    r.iv[k] = (lo, hi)
        r.cnt = self.join_cnt(s.cnt, t.cnt)
        r.dirty = s.dirty | t.dirty
        r.ctl = s.ctl | t.ctl
        r.path = self.join_path(s.path, t.path)
        return r

    # properties of values that survive joins: name -> function(engine, state, value)
    preds = {}

    @staticmethod
    def vacuous(v):
        return v is None or all(a[0] == 'unb' or a[0] == 'c' and a[1] == 'NoneType' for a in v.atoms)

    def holds_pred(self, st, v, name):
        """does the value have the property in this state (None and unbound alternatives aside)?"""
        return bool(st.facts.get(('pred', name, v.term))) or bool(self.preds[name](self, st, v))

    @staticmethod
    def join_path(p, q):
        if p is q:
            return p
        seen = set()
        x = p
        while x is not None:
            seen.add(id(x))
            x = x[0]
        x = q
        while x is not None and id(x) not in seen:
            x = x[0]
        return x

    @staticmethod
    def join_cnt(a, b):
        if a == b:
            return a
        d, e = dict(a), dict(b)
        r = {}
        for k in set(d) | set(e):
            x, y = d.get(k, 0), e.get(k, 0)
            r[k] = x if x == y else 'many'
        return tuple(sorted(r.items(), key=repr))

    def join_all(self, sts, site, loop=False):
        r = sts[0]
        for s in sts[1:]:
            r = self.join(r, s, site, loop)
        return r

    def same_state(self, s, t):
        if s.cnt != t.cnt or s.dirty != t.dirty or len(s.frames) != len(t.frames):
            return False
        for f, a in s.frames.items():
            b = t.frames.get(f)
            if a is not b and a != b:
                return False
        if len(s.heap) != len(t.heap):
            return False
        for l, o in s.heap.items():
            p = t.heap.get(l)
            if p is None or (p is not o and not p.same(o)):
                return False
        return True

    def reduce(self, sts, site, limit=None):
        limit = limit or self.max_states
        if len(sts) < 2:
            return sts
        if 'fork_' in self.hooks:       # every history keeps its own probability
            if len(sts) > self.max_states:
                raise Giveup('too many histories')
            return sts
        out = []
        for s in sts:
            for i, t in enumerate(out):
                if self.same_state(s, t):
                    u = t.clone()
                    u.facts = {k: v for k, v in t.facts.items() if k in s.facts and s.facts[k] == v}
                    u.iv = {k: self.hull(v, s.iv[k]) for k, v in t.iv.items() if k in s.iv}
                    u.ctl = t.ctl | s.ctl
                    u.path = self.join_path(t.path, s.path)
                    out[i] = u
                    break
            else:
                out.append(s)
        if len(out) > limit:
            groups = {}
            for s in out:
                groups.setdefault((s.cnt, s.dirty, self.pkey(s)), []).append(s)
            if len(groups) > limit:
                groups = {}
                for s in out:
                    groups.setdefault((s.cnt, s.dirty), []).append(s)
            self.notes.add('states merged at %s' % (self.where(self.curnode)))
            out = [self.join_all(g, site) for g in groups.values()]
        return out

    @staticmethod
    def hull(a, b):
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1], key=lambda x: (x[0], -x[1]))
        return (lo, hi)

    pkey_fn = None
    deadline = None

    def pkey(self, st):
        return self.pkey_fn(self, st) if self.pkey_fn else ()

    # ------------------------------------------------------------ facts
    def tm(self, st, v):
        """current content term of a value"""
        if len(v.atoms) == 1:
            a = next(iter(v.atoms))
            if a[0] == 'l':
                o = st.heap.get(a[1])
                if o is not None and o.kind in ('list', 'tuple', 'array', 'set', 'iter'):
                    if o.items is not None and o.kind in ('list', 'tuple'):
                        if len(o.items) <= 12:
                            return T('tuple', *[self.tm(st, x) for x in o.items])
                    return o.term
            elif a[0] == 'c':
                return v.term
        elif len(v.atoms) > 1 and v.term.op == 'phi':
            return v.term
        return v.term

    def bound(self, st, t):
        """interval of a term from constants and facts: ((lo, strict?), ...) simplified to (lo, hi) closed, with
        strictness encoded by pairs (value, 0|1)"""
        p = poly_of(t)
        if p is None:
            return (None, None)
        k, s, c = lin_key(p)
        if k is None:
            return ((c, 0), (c, 0))
        iv = st.iv.get(k)
        lo = hi = None
        if iv is not None:
            lo, hi = iv
        else:
            # single non-negative atoms
            if all(co > 0 and all(self.nonneg(x) for x, _ in m) for m, co in k):
                lo = (Fraction(0), 0)
        if lo is None and all(co > 0 and all(self.nonneg(x) for x, _ in m) for m, co in k):
            lo = (Fraction(0), 0)
        if s < 0:
            lo, hi = hi, lo
            lo = None if lo is None else (s * lo[0], lo[1])
            hi = None if hi is None else (s * hi[0], hi[1])
            lo = None if lo is None else (lo[0] + c, lo[1])
            hi = None if hi is None else (hi[0] + c, hi[1])
        else:
            lo = None if lo is None else (s * lo[0] + c, lo[1])
            hi = None if hi is None else (s * hi[0] + c, hi[1])
        return lo, hi

    @staticmethod
    def nonneg(t):
        return t.op in ('len', 'dim', 'size', 'nonneg') or (t.op == 'call' and t.args[0] in ('len', 'abs', 'numpy.abs', 'numpy.sqrt', 'numpy.exp'))

    isint_terms = frozenset()

    def isint(self, t):
        return t.op in ('len', 'dim', 'size') or t in self.isint_terms or (t.op == 'phi' and 'int' == self.typ.get(t))

    typ = {}

    def extreme(self, op, a, b):
        """('all'|'any', op, [(x, y), ...]) for an ordering of a minimum or a maximum, else None"""
        fl = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}
        for x, y, o in ((a, b, op), (b, a, fl.get(op))):
            if o not in fl:
                return None
            nm = x.op if x.op in ('min', 'max') else x.args[0] if x.op == 'call' and isinstance(x.args[0], str) else None
            nm = {'numpy.minimum': 'min', 'numpy.maximum': 'max', 'numpy.min': 'min', 'numpy.max': 'max'}.get(nm, nm)
            if nm not in ('min', 'max'):
                continue
            xs = [z for z in x.args[0 if x.op in ('min', 'max') else 1:]]
            if len(xs) == 1 and isinstance(xs[0], Term) and xs[0].op == 'tuple':
                xs = list(xs[0].args)
            if len(xs) < 2 or not all(isinstance(z, Term) and z.op != 'kw' for z in xs):
                return None
            return 'all' if (nm == 'min') == (o in ('Gt', 'GtE')) else 'any', o, [(z, y) for z in xs]
        return None

    def cmp_terms(self, st, op, a, b):
        """three-valued comparison of numeric terms"""
        r = self.cmp_terms1(st, op, a, b)
        if r is None and isinstance(a, Term) and isinstance(b, Term):
            x = self.extreme(op, a, b)
            if x is not None:
                rs = [self.cmp_terms(st, x[1], u, v) for u, v in x[2]]
                if x[0] == 'all':
                    r = False if False in rs else True if None not in rs else None
                else:
                    r = True if True in rs else False if None not in rs else None
        return r

    def cmp_terms1(self, st, op, a, b):
        if a is b:
            return {'Lt': False, 'Gt': False, 'NotEq': False, 'LtE': True, 'GtE': True, 'Eq': True}[op]
        d = T('Sub', a, b)
        lo, hi = self.bound(st, d)
        if lo is None and hi is None:
            pa, pb = ratfunc(a), ratfunc(b)
            if rat_equal(pa, pb):
                return {'Lt': False, 'Gt': False, 'NotEq': False, 'LtE': True, 'GtE': True, 'Eq': True}[op]
            r = st.facts.get(T('cmp', op, a, b))
            if r is None and op in ('Eq', 'NotEq'):
                r = st.facts.get(T('cmp', 'Eq', a, b))
                if r is None:
                    r = st.facts.get(T('cmp', 'Eq', b, a))
                if r is None:
                    k = self.eqkey(a, b)
                    if k is not None:
                        r = st.facts.get(k)
                if r is not None and op == 'NotEq':
                    r = not r
            return r
        pos = lo is not None and (lo[0] > 0 or (lo[0] == 0 and lo[1]))
        neg = hi is not None and (hi[0] < 0 or (hi[0] == 0 and hi[1]))
        nn = lo is not None and lo[0] >= 0
        np_ = hi is not None and hi[0] <= 0
        if op == 'Gt':
            return True if pos else False if np_ else None
        if op == 'Lt':
            return True if neg else False if nn else None
        if op == 'GtE':
            return True if nn else False if neg else None
        if op == 'LtE':
            return True if np_ else False if pos else None
        if op in ('Eq', 'NotEq'):
            r = None
            if pos or neg:
                r = False
            elif nn and np_:
                r = True
            else:
                r = st.facts.get(T('cmp', 'Eq', a, b))
                if r is None:
                    r = st.facts.get(T('cmp', 'Eq', b, a))
                if r is None:
                    k = self.eqkey(a, b)
                    if k is not None:
                        r = st.facts.get(k)
            return r if op == 'Eq' or r is None else not r
        return None

    def eqkey(self, a, b):
        p = poly_of(T('Sub', a, b))
        if p is None:
            return None
        k, s, c = lin_key(p)
        if k is None:
            return None
        return ('eq0', k, c / s)

    def assume_cmp(self, st, op, a, b, val):
        """record a comparison; False if it contradicts the facts"""
        if not val:
            op = {'Lt': 'GtE', 'Gt': 'LtE', 'LtE': 'Gt', 'GtE': 'Lt', 'Eq': 'NotEq', 'NotEq': 'Eq'}[op]
        r = self.cmp_terms(st, op, a, b)
        if r is False:
            return False
        x = self.extreme(op, a, b) if isinstance(a, Term) and isinstance(b, Term) else None
        if x is not None:
            todo = x[2] if x[0] == 'all' else [p for p in x[2] if self.cmp_terms(st, x[1], *p) is not False]
            if x[0] == 'all' or len(todo) == 1:
                for u, v in todo:
                    if not self.assume_cmp(st, x[1], u, v, True):
                        return False
        p = poly_of(T('Sub', a, b))
        if p is None:
            st.facts[T('cmp', op, a, b)] = True
            return True
        k, s, c = lin_key(p)
        if k is None:
            return r is not False
        integral = all(co.denominator == 1 and all(self.isint(x) for x, _ in m) for m, co in k) and s != 0
        # s*k + c  op 0   <=>  k op' -c/s
        v = -c / s
        if s < 0:
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        lo, hi = st.iv.get(k, (None, None))
        if lo is None and all(co > 0 and all(self.nonneg(x) for x, _ in m) for m, co in k):
            lo = (Fraction(0), 0)

        def maxlo(x, y):
            return y if x is None else x if x > y else y

        def minhi(x, y):
            if x is None:
                return y
            if (x[0], -x[1]) < (y[0], -y[1]):
                return x
            return y
        if op == 'Gt':
            n = (v, 1)
            if integral:
                import math
                n = (Fraction(math.floor(v) + 1), 0)
            lo = maxlo(lo, n)
        elif op == 'GtE':
            n = (v, 0)
            if integral:
                import math
                n = (Fraction(math.ceil(v)), 0)
            lo = maxlo(lo, n)
        elif op == 'Lt':
            n = (v, 1)
            if integral:
                import math
                n = (Fraction(math.ceil(v) - 1), 0)
            hi = minhi(hi, n)
        elif op == 'LtE':
            n = (v, 0)
            if integral:
                import math
                n = (Fraction(math.floor(v)), 0)
            hi = minhi(hi, n)
        elif op == 'Eq':
            lo, hi = (v, 0), (v, 0)
            st.facts[('eq0', k, c / s)] = True
        elif op == 'NotEq':
            st.facts[('eq0', k, c / s)] = False
            if integral and lo is not None and lo == (v, 0):
                lo = (v + 1, 0)
            if integral and hi is not None and hi == (v, 0):
                hi = (v - 1, 0)
            if not integral and lo is not None and lo == (v, 0):
                lo = (v, 1)
            if not integral and hi is not None and hi == (v, 0):
                hi = (v, 1)
        if lo is not None and hi is not None and (lo[0] > hi[0] or (lo[0] == hi[0] and (lo[1] or hi[1]))):
            return False
        if lo is not None or hi is not None:
            st.iv[k] = (lo, hi)
        return True
