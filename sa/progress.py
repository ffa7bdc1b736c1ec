"""Progress of while loops.

A loop is followed for two iterations with all decisions enumerated.  Three facts about it are decided:
- a path from the head back to the head that leaves every local variable, and everything that can be reached from them, as it was, and that takes no decision on a random variate, will be taken
  again and again: the loop repeats the same computation forever;
- if the first iteration changes some variables, without random variates, the second one is analysed with these variables as unknowns: its paths back to the head give the map from
  one state to the next, which is iterated from the state after the first iteration, at points of the parameter space; a fixed point (or cycle) of this map, at which the loop goes on, is a loop without end.
"""
import ast
from . import law, walks
from .engine import V, unk
from .pit import Arr, NotEval
from .terms import T, C, subterms

RANDOM = ('U', 'weight', 'unif', 'env')


def entries(st, upto=None):
    """path entries of a state, latest first, up to (not including) the marker"""
    out, x = [], st.path
    while x is not None:
        t = x[4] if len(x) > 4 else None
        if upto is not None and t is not None and t.op == 'loophead' and t.args[0].args[0] == upto:
            return out
        out.append(x)
        x = x[0]
    return out if upto is None else None


def marker(st):
    x = st.path
    while x is not None:
        t = x[4] if len(x) > 4 else None
        if t is not None and t.op == 'loophead':
            return t.args[0].args[0]
        x = x[0]
    return None


def draws(ts):
    return {s for t in ts for s in subterms(t) if s.op in RANDOM or s.op == 'site'}


class Loop:
    def __init__(self, n, where):
        self.n, self.where, self.fn, self.seen = n, where, '', 0
        self.lasso = []
        test = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
        used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        # names that no iteration reads before it assigns them
        self.dead = {a for a in used if a not in test and not walks.first_read(n.body, a)}
        self.maps, self.starts = [], []


class Progress:
    def __init__(self, r, task, **kw):
        self.p = p = r.p
        self.loops, self.count, self.saved, self.note = {}, 0, {}, None
        p.hooks['while_'] = self.head
        try:
            law.leaves(r, task, limit=600, **kw)
        except law.Undecided as e:
            self.note = str(e)
        finally:
            p.hooks.pop('while_', None)

    def snapshot(self, st):
        f = st.frames[self.p.fid]
        return {a: self.p.tm(st, v) for a, v in f.items() if isinstance(v, V)}

    def heapkey(self, st):
        """terms and attributes of all objects"""
        out = {}
        for l, o in st.heap.items():
            out[l] = (o.kind, self.term(o), tuple(self.p.tm(st, x) for x in o.items) if o.items is not None else None,
                      tuple(sorted((str(a), self.p.tm(st, v)) for a, v in o.attrs.items() if isinstance(v, V))) if o.attrs else None)
        return out

    def term(self, o):
        return o.term

    def mark(self, st, n, data):
        self.count += 1
        self.saved[self.count] = data
        s = st.clone()
        s.path = (s.path, n, True, frozenset(), T('loophead', C(self.count)))
        return s

    def head(self, p, n, k, cur):
        if cur is None:
            return 4
        L = self.loops.setdefault((id(n), p.fid), Loop(n, p.where(n)))
        L.fn = L.fn or getattr(getattr(p, 'curfn', None), 'qual', '')
        L.seen += len(cur)
        out = []
        for st in cur:
            if k == 0:
                out.append(self.mark(st, n, (L, 0, self.snapshot(st), self.heapkey(st), None)))
                continue
            m = marker(st)
            if m is None or m not in self.saved or self.saved[m][0] is not L:
                continue
            _, stage, snap, heap, names = self.saved[m]
            since = entries(st, m)
            now, nowheap = self.snapshot(st), self.heapkey(st)
            changed = sorted(a for a in set(snap) | set(now) if snap.get(a) is not now.get(a))
            moved = [l for l in set(heap) | set(nowheap) if heap.get(l) != nowheap.get(l) and (l not in st.heap or st.heap[l].kind != 'rng')]
            known = draws(snap.values())
            rnd = any(len(x) < 5 or x[4] is None or x[4].op != 'unif' and draws([x[4]]) - known for x in since)
            old = [l for l in moved if l in heap and l in nowheap]
            if not set(changed) - L.dead and not old and not rnd:
                L.lasso.append(since)
                continue
            fresh = any(draws([now[a]]) - known for a in changed if a in now)
            if stage == 0 and not rnd and not fresh:
                out.append(self.mark(st, n, (L, 2, now, nowheap, None)))
                s = st.clone()
                names = []
                for a in changed:
                    v = s.frames[p.fid].get(a)
                    if not isinstance(v, V):
                        continue
                    o = p.the_obj(s, v)
                    sym = T('param', 'loop:%d:%s' % (self.count, a))
                    if o is not None and o.kind == 'array':
                        p.setvar(s, a, p.newarr(s, n, sym, frozenset(), sub='loop' + a, typ=o.typ))
                    elif o is not None:
                        names = None
                        break
                    else:
                        p.setvar(s, a, self.scalar(v, sym))
                    names.append((a, sym))
                if names and not self.foreign(old, st, changed):
                    L.starts.append((entries(st), {a: now[a] for a, _ in names}, names))
                    out.append(self.mark(s, n, (L, 1, self.snapshot(s), self.heapkey(s), (len(L.starts) - 1, names))))
                continue
            if stage == 1:
                i, names = names
                vs = {a for a, _ in names}
                ok = not rnd and not fresh and set(changed) <= vs
                L.maps.append((i, since, {a: now.get(a) for a in vs} if ok else None))
        return out

    def scalar(self, v, sym):
        ty = {type(a[2]).__name__ if a[0] == 'c' else a[1] for a in v.atoms if a[0] in ('c', 'u')}
        ty = 'float' if ty and ty <= {'int', 'float'} and len(ty) > 1 else ty.pop() if len(ty) == 1 else None
        return unk(sym, ty=ty)

    def foreign(self, old, st, changed):
        """are objects changed in place, other than those of a single changed variable?"""
        f, bound = st.frames[self.p.fid], {}
        for a, v in f.items():
            if isinstance(v, V):
                for x in v.atoms:
                    if x[0] == 'l':
                        bound.setdefault(x[1], []).append(a)
        return any(len(bound.get(l, ())) != 1 or bound[l][0] not in changed for l in old)


def iterate(L, point, limit=4000):
    """(state, variables) of a fixed point or cycle of the loop at this point, or None"""
    for i, (path, vals, names) in enumerate(L.starts):
        maps = [m for m in L.maps if m[0] == i]
        if not maps or any(m[2] is None for m in maps):
            continue
        if path is None:
            continue
        pt = point({})
        try:
            w, _ = pt.prob([x for x in path if len(x) < 5 or x[4] is None or x[4].op != 'loophead'])
            if w <= 0:
                continue
            cur = {a: pt.ev(t) for a, t in vals.items()}
        except (law.Undecided, NotEval, law.BadProb):
            continue
        seen = None
        for it in range(limit):
            q = point({sym: cur[a] for a, sym in names})
            nxt = None
            try:
                for _, since, m in maps:
                    w, _ = q.prob(since)
                    if w > 0:
                        nxt = {a: q.ev(t) for a, t in m.items()}
                        break
            except (law.Undecided, NotEval, law.BadProb, OverflowError, ZeroDivisionError):
                break
            if nxt is None:
                break
            if same(nxt, cur):
                return cur, it + 1
            if seen is not None and same(nxt, seen):
                return cur, it + 1
            if it & (it - 1) == 0:
                seen = nxt
            cur = nxt
    return None


def same(a, b):
    return all(flat(a[k]) == flat(b[k]) for k in a)


def flat(x):
    return list(x.data) if isinstance(x, Arr) else [x]
