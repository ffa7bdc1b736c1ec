"""Random walk samplers as finite Markov chains.

A loop of unbounded length is followed on a small graph with all draws enumerated.  At the head of the loop the abstract states of all paths are compared: the values of the local variables,
item by item, make up the state of the walk, and a path that reaches a state seen before is not followed further, as everything that comes after is known.  So the states of the walk,
the steps between them with their probabilities, and the results at the exits are enumerated completely, whatever the length of the walk.
"""
import ast
from . import law, pit
from .engine import V, Giveup, cval
from .terms import T, C
from .law import Undecided

LIMIT = 4000


def fresh(n):
    """names that every iteration assigns first, before anything reads them"""
    out, read = set(), set()

    def names(x, ctx):
        return {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ctx)}
    read |= names(n.test, ast.Load)
    for s in n.body:
        if not isinstance(s, ast.Assign):
            break
        read |= names(s.value, ast.Load)
        for t in s.targets:
            if isinstance(t, (ast.Name, ast.Tuple)):
                out |= names(t, ast.Store) - read
            read |= names(t, ast.Load)
    return out


def inner_only(n, fnode):
    """names used nowhere but in the body of the loop, and assigned in each block that reads them before it does"""
    out = set()
    inside = {id(x) for x in ast.walk(n)}
    outside = {x.id for x in ast.walk(fnode) if isinstance(x, ast.Name) and id(x) not in inside}
    used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} - outside
    for name in used:
        if not first_read(n.body, name) and name not in {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}:
            out.add(name)
    return out


def first_read(body, name):
    """may the block read the name before it assigns it?  None: it does neither"""
    for s in body:
        parts = []
        if isinstance(s, ast.If):
            if reads(s.test, name):
                return True
            a, b = first_read(s.body, name), first_read(s.orelse, name)
            if a or b:
                return True
            if a is False and b is False:
                return False
            continue
        if isinstance(s, (ast.For, ast.While, ast.Try, ast.With)):
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)):
                return True
            continue
        if isinstance(s, ast.Assign):
            if reads(s.value, name) or any(reads(t, name) for t in s.targets):
                return True
            if any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return False
            continue
        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)):
            return True
    return None


def reads(x, name):
    return any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, (ast.Load, ast.Del)) for y in ast.walk(x))


class Walk:
    """the chain of one call: heads (states at loop heads), steps[a][b] = probability, exits[a] = {result: probability}; state 0 is the start"""
    def __init__(self, r, task, result, at=None):
        self.p, self.result = r.p, result
        self.ids, self.nodes = {}, [None]
        self.paths = [[]]
        self.steps, self.exits = {}, {}
        p = r.p
        self.bodies = {}
        p.hooks['while_'] = self.head
        p.hooks['ext_'] = self.ext
        self.ev = pit.Ev({}, None)
        self.undecided = None
        try:
            leaves, exc = law.leaves(r, task, limit=LIMIT)
        finally:
            p.hooks.pop('while_', None)
            p.hooks.pop('ext_', None)
        if len(self.nodes) > LIMIT:
            raise Undecided('too many states')
        self.failures = []
        for path, st, v in leaves:
            a, w, edges = self.since(st)
            x = result(self, st, v, edges)
            d = self.exits.setdefault(a, {})
            d[x] = d.get(x, 0.0) + w
        for path, st, x in exc:
            a, w, edges = self.since(st)
            if a == 0:          # before the walk starts (a package is missing, an argument is refused)
                continue
            self.failures.append((a, w, x))
            d = self.exits.setdefault(a, {})
            d[('raise', str(x))] = d.get(('raise', str(x)), 0.0) + w

    # -------------------------------------------------------------- exploration
    def since(self, st):
        """(last state of the walk, probability since then, graph operations on the path)"""
        w, a, edges = 1.0, None, []
        x = st.path
        while x is not None:
            t = x[4] if len(x) > 4 else None
            if t is None or t.op == 'unif':
                if t is not None:
                    raise Undecided('uniform variates')
                if a is None and t is None:
                    w = None
            elif t.op == 'head':
                if a is None:
                    a = t.args[0].args[0]
            elif t.op == 'graph':
                edges.append(t.args[0].args[0])
            elif t.op == 'weight':
                if a is None and w is not None:
                    try:
                        w *= float(law.Point({}).weight(t.args[0]))
                    except Exception:
                        w = None
            elif a is None:
                w = None
            x = x[0]
        return a or 0, w if w is not None else float('nan'), edges[::-1]

    def content(self, st, v):
        try:
            return law.content(self.p, st, v, self.ev)
        except Exception:
            return None

    def head(self, p, n, k, cur):
        if cur is None:
            return 400
        fnode = p.curfn.node if getattr(p, 'curfn', None) is not None and hasattr(p.curfn, 'node') else None
        if n not in self.bodies:
            self.bodies[n] = fresh(n) | (inner_only(n, fnode) if fnode is not None else set())
        skip = self.bodies[n]
        out = []
        for st in cur:
            f = st.frames[p.fid]
            key = [id(n), p.fid]
            for name in sorted(x for x in f if isinstance(f[x], V) and x not in skip):
                key.append((name, self.value(st, f[name])))
            a, w, edges = self.since(st)
            key = (tuple(key), tuple(edges))
            new = key not in self.ids
            if new:
                self.ids[key] = len(self.nodes)
                self.nodes.append(n)
                if len(self.nodes) > LIMIT:
                    raise Giveup('too many states of a walk')
            b = self.ids[key]
            d = self.steps.setdefault(a, {})
            d[b] = d.get(b, 0.0) + w
            if new:
                s = st.clone()
                s.path = (s.path, n, True, frozenset(), T('head', C(b)))
                out.append(s)
        return out

    def value(self, st, v):
        o = self.p.the_obj(st, v)
        if o is not None and o.kind in ('rng', 'ext', 'inst', 'mod'):
            return o.term if o.kind != 'rng' else 'rng'
        if any(a[0] in ('f', 'cls', 'x', 'm', 'bm', 'mod') for a in v.atoms):
            return 'code'
        c = self.content(st, v)
        return c if c is not None else self.p.tm(st, v)

    # -------------------------------------------------------------- graphs that are built
    def ext(self, p, n, st, name, pos, kw):
        base = name.split('.')[-1].replace('meth:', '')
        if base == 'Graph' or base == 'from_edgelist':
            e = self.content(st, pos[0]) if pos else ()
        elif base == 'add_edges_from' and pos:
            e = self.content(st, pos[0])
        elif base == 'add_edge' and len(pos) >= 2:
            e = (tuple(self.content(st, x) for x in pos[:2]),)
        elif base in ('add_path', 'add_cycle', 'add_star', 'remove_edge', 'remove_edges_from', 'add_weighted_edges_from', 'remove_node'):
            e = None
        else:
            return
        st.path = (st.path, n, True, frozenset(), T('graph', C(('new' if base in ('Graph', 'from_edgelist') else 'add', e))))

    # -------------------------------------------------------------- what follows
    def stuck(self):
        """states from which no exit can be reached"""
        ok = set(self.exits)
        back = {}
        for a, d in self.steps.items():
            for b in d:
                back.setdefault(b, set()).add(a)
        todo = list(ok)
        while todo:
            for a in back.get(todo.pop(), ()):
                if a not in ok:
                    ok.add(a)
                    todo.append(a)
        return [a for a in range(len(self.nodes)) if a not in ok]

    def law(self, tol=1e-11):
        """law of the result"""
        v, out, rest = {0: 1.0}, {}, 1.0
        for it in range(20000):
            nxt = {}
            for a, m in v.items():
                for x, w in self.exits.get(a, {}).items():
                    if w != w:
                        raise Undecided('probability of an exit')
                    out[x] = out.get(x, 0.0) + m * w
                for b, w in self.steps.get(a, {}).items():
                    if w != w:
                        raise Undecided('probability of a step')
                    nxt[b] = nxt.get(b, 0.0) + m * w
            v = nxt
            rest = sum(v.values())
            if rest < tol:
                return out
        raise Undecided('the walk takes too long')

