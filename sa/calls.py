"""Calls and statements of the abstract interpreter (see engine.py, interp.py)."""
import ast
import itertools
import math
import re
from . import lib
from .terms import T, C, Term, show, subterms, contains, rat_equal, ratfunc, poly_of, lin_key
from .engine import (V, O, Out, Exc, Fn, Cls, State, Giveup, mkv, const, unk, cval, locs, sole, tagsof, NONE, TRUE, FALSE,
                     UNB, UNB0, NOTAGS, own_nodes, new_state, ELEMWISE)
from .interp import Interp, OPN, EXC_PARENT, set_op

STR_METHODS = {'format', 'join', 'lower', 'upper', 'strip', 'split', 'replace', 'startswith', 'endswith', 'title', 'capitalize', 'rstrip', 'lstrip', 'count', 'find', 'encode', 'zfill', 'ljust', 'rjust', 'center'}


class Analyzer(Interp):
    # ================================================================ calls
    def ev_Call(self, n, st, out):
        res = self.call_node(n, st, out)
        if 'fork_' in self.hooks:
            h = self.hooks.get('result_')
            for i, (s, v) in enumerate(res):
                a = sole(v)
                if h is not None and v.term.op == 'call':
                    w = h(v.term)
                    if w is not None:
                        res[i] = (s, const(w, v.tags))
                        continue
                if a is not None and v.term.op == 'call' and (a[0] == 'u' or a[0] == 'l' and a[1] in s.heap and s.heap[a[1]].kind == 'ext'):
                    c = self.closed(v.term)
                    if isinstance(c, (bool, int, float)):
                        res[i] = (s, const(c, v.tags))
        return res

    def call_node(self, n, st, out):
        self.tick()
        res = []
        for s, f in self.ev(n.func, st, out):
            # positional and keyword arguments
            argn = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
            kwn = [k.value for k in n.keywords]
            for s2, vs in self.evs(argn + kwn, s, out):
                pos, kw = [], {}
                unkstar = False
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        it = self.known_items(s2, v)
                        if it is None:
                            unkstar = True
                            pos.append(unk(T('star', self.tm(s2, v)), v.tags))
                        else:
                            pos += it
                    else:
                        pos.append(v)
                for k, v in zip(n.keywords, vs[len(argn):]):
                    if k.arg is None:
                        o = self.the_obj(s2, v)
                        if o is not None and o.kind == 'dict':
                            for kk, vv in o.attrs.items():
                                if isinstance(kk, str):
                                    rest = [x for x in vv.atoms if x[0] != 'unb']
                                    if not rest:
                                        continue
                                    if len(rest) < len(vv.atoms):
                                        vv = mkv(rest, vv.term, vv.tags)
                                    if kk in kw:
                                        self.emit('dupkw', n, s2, name=kk)
                                    kw[kk] = vv
                            if o.open:
                                kw['**'] = v
                        else:
                            kw['**'] = v
                    else:
                        if k.arg in kw:
                            self.emit('dupkw', n, s2, name=k.arg)
                        kw[k.arg] = v
                res += self.call(f, pos, kw, s2, n, out, unkstar)
        return self.reduce_vals(res, n)

    def call(self, f, pos, kw, st, n, out, unkstar=False):
        res = []
        ats = sorted(f.atoms, key=repr) if len(f.atoms) > 1 else f.atoms
        for a in ats:
            k = a[0]
            if k == 'f':
                res += self.as_list(self.call_fn(a, pos, kw, st.clone(), n, out, unkstar), st)
            elif k == 'bm':
                res += self.as_list(self.call_fn(a[2], [a[1]] + pos, kw, st.clone(), n, out, unkstar), st)
            elif k == 'cls':
                res += self.instantiate(a[1], pos, kw, st.clone(), n, out, unkstar)
            elif k == 'x':
                res += self.call_ext(a[1], f, pos, kw, st.clone(), n, out)
            elif k == 'm':
                self.unkstar = unkstar
                res += self.call_method(a[1], a[2], pos, kw, st.clone(), n, out)
            elif k == 'partial':
                p2 = list(a[2]) + pos
                k2 = dict(a[3])
                k2.update(kw)
                res += self.call(a[1], p2, k2, st.clone(), n, out)
            elif k == 'l' and st.heap.get(a[1]) is not None and st.heap[a[1]].kind == 'inst':
                o = st.heap[a[1]]
                r = self.find_attr(o.cls, '__call__')
                if r is not None:
                    res += self.as_list(self.call_fn(sole(r[1]), [mkv([a], f.term, f.tags)] + pos, kw, st.clone(), n, out), st)
                else:
                    res.append((st, unk(self.site('callinst', n))))
            elif k == 'c':
                self.emit('notcallable', n, st, what=repr(a[2]))
                if len(f.atoms) == 1:
                    out.exc.append((st, Exc('TypeError', n, implicit=True)))
            else:
                # unknown callable (user supplied function, external object): pure, returns a fresh value
                s = st.clone()
                t = T('call', 'user:' + show(f.term, 3), *([self.tm(s, v) for v in pos] + [T('kw', q, self.tm(s, v)) for q, v in sorted(kw.items())]))
                self.emit('usercall', n, s, fn=f.term, args=tuple(self.tm(s, v) for v in pos), tags=f.tags | tagsof(*pos))
                tags = tagsof(f, *pos) | tagsof(*kw.values())
                if a[0] == 'l' and st.heap.get(a[1]) is not None and st.heap[a[1]].typ == 'poly1d':
                    o = st.heap[a[1]]
                    if o.term is not None and o.term.op != 'param' and len(pos) == 1 and not kw:
                        t = T('call', 'polyval', o.term, self.tm(s, pos[0]))
                    res.append((s, self.newarr(s, n, t, tags) if pos and self.isarr(s, pos[0]) else unk(t, tags, 'float')))
                elif a[0] == 'u' and a[1] == 'callable':
                    res.append((s, self.newarr(s, n, t, tags)))
                else:
                    res.append((s, mkv([('l', self.alloc(s, n, 'ext', term=t, tags=tags))], t, tags)))
        return res

    def as_list(self, r, st):
        return r if isinstance(r, list) else [(st, r)]

    # ---------------------------------------------------------------- package functions
    def bind(self, fn, pos, kw, st, n, out, closure, unkstar):
        """parameter binding: (frame dict) or None if the call does not fit"""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        frame = {}
        pos = list(pos)
        kw = dict(kw)
        dstar = kw.pop('**', None)
        for nm, v in zip(names, pos):
            frame[nm] = v
        extra = pos[len(names):]
        problem = None
        if extra and not a.vararg and not unkstar:
            problem = 'takes %d positional arguments but %d were given' % (len(names), len(pos))
        if a.vararg:
            frame[a.vararg.arg] = self.newlist(st, fn.node, 'tuple', tuple(extra), None, tagsof(*extra), sub='varargs')
        for x in a.kwonlyargs:
            names.append(x.arg)
        for k in list(kw):
            if k in names and k not in [x.arg for x in a.posonlyargs]:
                if k in frame:
                    problem = 'got multiple values for argument %r' % k
                frame[k] = kw.pop(k)
        if a.kwarg:
            loc = self.alloc(st, fn.node, 'dict', 'kwargs', attrs=dict(kw), open=dstar is not None, tags=tagsof(*kw.values()))
            frame[a.kwarg.arg] = mkv([('l', loc)], st.heap[loc].term, tagsof(*kw.values()))
        elif kw:
            problem = 'got an unexpected keyword argument %r' % sorted(kw)[0]
        # defaults
        posn = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        dvals = getattr(fn, 'defaults', None) or {}
        for i, nm in enumerate(posn):
            if nm not in frame:
                if i >= len(posn) - nd:
                    frame[nm] = dvals.get(nm) or self.default_of(fn, nm, a.defaults[i - (len(posn) - nd)], st)
                elif unkstar or dstar is not None:
                    frame[nm] = unk(T('param?', nm))
                else:
                    problem = problem or 'missing argument %r' % nm
                    frame[nm] = unk(T('param?', nm))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in frame:
                if d is not None:
                    frame[x.arg] = dvals.get(x.arg) or self.default_of(fn, x.arg, d, st)
                else:
                    problem = problem or 'missing keyword argument %r' % x.arg
                    frame[x.arg] = unk(T('param?', x.arg))
        if problem:
            self.emit('badcall', n, st, callee=fn.qual, problem=problem)
            return None
        return frame

    def default_of(self, fn, nm, node, st):
        """defaults are evaluated once, at definition time"""
        d = fn.__dict__.setdefault('defaults', {})
        if nm not in d:
            sv = self.save()
            self.fid, self.mod, self.ctx, self.curfn = ('M', fn.mod), fn.mod, ('default', fn.qual), None
            self.cstack = list(self.cstack)
            r = self.ev(node, st, Out())
            self.restore(sv)
            if r:
                s, v = r[0]
                for a in v.atoms:
                    if a[0] == 'l' and a[1] in s.heap:
                        o = s.heap[a[1]].rep(origin='static')
                        s.heap[a[1]] = o
                        st.heap[a[1]] = o
                        self.base.heap[a[1]] = o
                d[nm] = v
            else:
                d[nm] = unk(T('default', fn.qual, nm))
        v = d[nm]
        for a in v.atoms:
            if a[0] == 'l' and a[1] not in st.heap and a[1] in self.base.heap:
                st.heap[a[1]] = self.base.heap[a[1]]
        return v

    def save(self):
        return (self.fid, self.mod, self.ctx, self.curfn, self.cstack)

    def restore(self, sv):
        self.fid, self.mod, self.ctx, self.curfn, self.cstack = sv

    def call_fn(self, a, pos, kw, st, n, out, unkstar=False):
        fn, closure = a[1], a[2]
        self.fns_seen.add(fn.qual)
        if getattr(fn, 'dkind', None) == 'opaque':
            return [(st, unk(self.site('call', n)))]
        h = self.hooks.get('intercept')
        if h is not None:
            r = h(self, fn, pos, kw, st, n)
            if r is not None:
                return r
        depth_same = sum(1 for f, _, _ in self.cstack if f is fn)
        if len(self.cstack) >= self.max_depth or depth_same >= 5:
            self.emit('recursion', n, st, callee=fn.qual)
            self.notes.add('call of %s at %s not followed (depth)' % (fn.qual, self.where(n)))
            if depth_same >= 5:
                return []
            return [(st, unk(self.site('call', n)))]
        if fn.gen:
            # generator: treat as producing unknown elements after running once
            pass
        frame = self.bind(fn, pos, kw, st, n, out, closure, unkstar)
        if frame is None:
            out.exc.append((st, Exc('TypeError', n, implicit=True)))
            return []
        self.emit('call', n, st, name=fn.qual, args=frame)
        memo = None
        if getattr(fn, 'dkind', None) == 'cached':
            memo = ('CACHE', fn.qual)
        sv = self.save()
        site = self.nid.get(n, id(n))
        ctx = self.ctx + (site,)
        if len(ctx) > 25:
            ctx = ctx[-25:]
        fid = ('F', fn.qual, ctx)
        frame['%closure'] = closure if closure != ('M', fn.mod) else None
        if fn.gen:
            frame['%yield'] = None
        st = st.clone()
        st.frames[fid] = frame
        self.fid, self.mod, self.ctx, self.curfn = fid, fn.mod, ctx, fn
        self.cstack = self.cstack + [(fn, ctx, n)]
        o2 = Out()
        if isinstance(fn.node, ast.Lambda):
            rets = self.ev(fn.node.body, st, o2)
        else:
            ends = self.exec_block(fn.node.body, [st], o2)
            rets = [(s, v) for s, v in o2.ret] + [(s, NONE) for s in ends]
        if fn.gen:
            rets = [(s, self.newlist(s, n, 'iter', None, s.frames.get(fid, {}).get('%yield'), sub='gen')) for s, v in rets]
        self.emit_return(fn, rets, st)
        self.restore(sv)
        keep = self.has_closure(fn)
        for s, _ in rets + o2.exc:
            if not keep:
                s.frames.pop(fid, None)
        if not keep:
            for s, v in rets:
                self.gc(s, v, ctx, len(rets) > 1)
        for s, e in o2.exc:
            out.exc.append((s, e))
        if memo is not None:
            rets = [(s, self.cached_value(s, v, memo)) for s, v in rets]
        return self.reduce_rets(rets, n, fn)

    def gc(self, st, v, ctx, force=True):
        """drop unreachable objects that the finished call allocated (they only keep equal states apart)"""
        k = len(ctx)
        cand = [l for l in st.heap if l[0] == 'A' and len(l) == 4 and l[2][:k] == ctx and st.heap[l].kind != 'rng']
        if not cand or (len(cand) < 6 and not force):
            return
        seen, stack = set(), []

        def push(x):
            if not isinstance(x, V):
                return
            for a in x.atoms:
                if a[0] == 'l':
                    if a[1] not in seen:
                        seen.add(a[1])
                        stack.append(a[1])
                elif a[0] in ('bm', 'm', 'partial', 'super', 'slice'):
                    for y in a[1:]:
                        if isinstance(y, V):
                            push(y)
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, V):
                                    push(z)
                                elif isinstance(z, tuple):
                                    for w in z:
                                        push(w)
        push(v)
        for f in st.frames.values():
            for x in f.values():
                push(x)
        cs = set(cand)
        for l in st.heap:
            if l not in cs and l not in seen:
                seen.add(l)
                stack.append(l)
        while stack:
            o = st.heap.get(stack.pop())
            if o is None:
                continue
            for b in o.refs():
                if b not in seen:
                    seen.add(b)
                    stack.append(b)
        for l in cand:
            if l not in seen:
                del st.heap[l]

    def cached_value(self, s, v, memo):
        for l in locs(v):
            o = s.heap.get(l)
            if o is not None:
                s.heap[l] = o.rep(origin='static')
        return v

    def emit_return(self, fn, rets, st):
        h = self.hooks.get('return')
        if h is not None:
            for s, v in rets:
                h(self, fn, s, v)

    def has_closure(self, fn):
        c = getattr(fn, 'hasclos', None)
        if c is None:
            c = fn.hasclos = any(isinstance(x, (ast.Lambda, ast.FunctionDef)) for x in own_nodes(fn.node))
        return c

    def reduce_rets(self, rets, n, fn):
        if len(rets) < 2:
            return rets
        out = []
        if 'fork_' in self.hooks:
            return rets
        for s, v in rets:
            for i, (t, w) in enumerate(out):
                if w is v and self.same_state(s, t):
                    u = t.clone()
                    u.facts = {k: x for k, x in t.facts.items() if k in s.facts and s.facts[k] == x}
                    u.iv = {k: self.hull(x, s.iv[k]) for k, x in t.iv.items() if k in s.iv}
                    u.ctl = t.ctl | s.ctl
                    u.path = self.join_path(t.path, s.path)
                    out[i] = (u, w)
                    break
            else:
                out.append((s, v))
        if len(out) > self.max_states:
            groups = {}
            for s, v in out:
                groups.setdefault((s.cnt, s.dirty, self.pkey(s)), []).append((s, v))
            self.notes.add('returns merged at %s' % fn.qual)
            r = []
            for g in groups.values():
                site = ('ret', self.nid.get(n), self.ctx)
                r.append((self.join_all([x[0] for x in g], site), self.join_vals([x[1] for x in g], site)))
            out = r
        return out

    def instantiate(self, cls, pos, kw, st, n, out, unkstar=False):
        if self.is_exception(cls):
            loc = self.alloc(st, n, 'exc', cls=cls, items=tuple(pos), term=T('exc', cls.name))
            return [(st, mkv([('l', loc)], T('exc', cls.name)))]
        loc = self.alloc(st, n, 'inst', cls=cls, attrs={}, term=T('inst', cls.name, self.nid.get(n, 0), self.ctx))
        v = mkv([('l', loc)], st.heap[loc].term)
        r = self.find_attr(cls, '__init__')
        if r is None:
            return [(st, v)]
        f = sole(r[1])
        if f is None or f[0] != 'f':
            return [(st, v)]
        return [(s, v) for s, _ in self.call_fn(f, [v] + pos, kw, st, n, out, unkstar)]

    def is_exception(self, cls):
        for b in cls.bases:
            if b[0] == 'x' and (b[1] in EXC_PARENT or b[1].endswith(('Error', 'Exception', 'Warning'))):
                return True
            if b[0] == 'cls' and self.is_exception(b[1]):
                return True
        return False

    # ---------------------------------------------------------------- mutation
    def mutate(self, st, v, node, how, newterm=None, items=None, **kw):
        """an in-place change of the object(s) v may denote"""
        ls = locs(v)
        weak = len(ls) > 1 or len(v.atoms) > 1
        for l in ls:
            self.mutate_loc(st, l, node, how, newterm if not weak else None, weak, kw)
        return weak

    def mutate_loc(self, st, l, node, how, newterm, weak, kw, seen=()):
        o = st.heap.get(l)
        if o is None or l in seen:
            return
        self.emit('mutate', node, st, loc=l, how=how, origin=o.origin, view=bool(seen))
        h = self.hooks.get('mut')
        if h is not None:
            h(self, node, st, l, how)
            o = st.heap.get(l)
        nt = newterm if newterm is not None else T('mut', o.term if o.term is not None else T('none'), self.nid.get(node, 0), self.ctx)
        st.heap[l] = o.rep(term=nt)
        for b in o.bases:
            ob = st.heap.get(b)
            part = newterm is not None and not weak and len(o.bases) == 1 and ob is not None and ob.kind == 'array' and \
                o.term is not None and o.term.op == 'idx' and o.term.args[0] == ob.term
            self.mutate_loc(st, b, node, how, T('upd', ob.term, o.term.args[1], newterm) if part else None, not part, kw, seen + (l,))
        # views of this object see the change as well
        for l2, o2 in list(st.heap.items()):
            if l in o2.bases and l2 not in seen and l2 != l and o2.kind == 'array':
                t2 = o2.term
                st.heap[l2] = o2.rep(term=T('idx', nt, t2.args[1]) if t2 is not None and t2.op == 'idx' and t2.args[0] == o.term and nt.op == 'upd' else
                                     T('mut', t2, self.nid.get(node, 0), self.ctx))

    def out_term(self, st, name, pos, kw):
        """the content a universal function leaves in its output array"""
        short = name[6:] if name.startswith('numpy.') else None
        if (short in lib.UFUNC1 and len(pos) == 1 or short in lib.UFUNC2 and len(pos) == 2) and not set(kw) - {'out', 'casting'}:
            at = self.argterms(st, pos, {})
            op = lib.ALIASES.get(name, name)
            return T({'+': 'Add', '-': 'Sub', '*': 'Mult', '/': 'Div'}[op], *at) if op in '+-*/' and len(at) == 2 else T('call', op, *at)
        return None

    def taint(self, st, v, tags):
        """the objects v may denote (and the arrays they are views of) now depend on `tags`"""
        todo, seen = list(locs(v)), set()
        while todo:
            l = todo.pop()
            o = st.heap.get(l)
            if o is None or l in seen:
                continue
            seen.add(l)
            if not tags <= o.tags:
                st.heap[l] = o.rep(tags=o.tags | tags)
            todo.extend(o.bases)
            if o.kind == 'tuple' and o.items:
                for x in o.items:
                    todo.extend(locs(x))

    def captured(self, st, v, depth=0):
        """tags of the variables that the functions v may denote read from their enclosing scopes"""
        tags = frozenset()
        for a in v.atoms:
            if a[0] != 'f' or getattr(a[1], 'node', None) is None:
                continue
            names = {x.id for x in ast.walk(a[1].node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            fid, k = a[2] if len(a) > 2 else None, 0
            while fid is not None and fid[0] != 'M' and k < 8:
                f = st.frames.get(fid, {})
                for q in names:
                    x = f.get(q)
                    if isinstance(x, V):
                        tags |= x.tags
                        for l in locs(x):
                            tags |= st.heap[l].tags if l in st.heap else frozenset()
                        if depth < 4 and any(b[0] == 'f' for b in x.atoms):
                            tags |= self.captured(st, x, depth + 1)
                fid, k = self.closure_of(st, fid), k + 1
        return tags

    # ---------------------------------------------------------------- library calls
    def argterms(self, st, pos, kw):
        return [self.tm(st, v) for v in pos] + [T('kw', k, self.tm(st, v)) for k, v in sorted(kw.items())]

    def call_ext(self, name, f, pos, kw, st, n, out):
        tags = tagsof(*pos) | tagsof(*kw.values())
        for v in list(pos) + list(kw.values()):
            if any(a[0] == 'f' for a in v.atoms):
                tags |= self.captured(st, v)
        name = self.canon(name)
        self.emit('ext', n, st, name=name, tags=tags)
        h = self.hooks.get('ext_')
        if h is not None:
            h(self, n, st, name, pos, kw)
        if st.dirty:
            self.may_raise(st, n, out)
        if self.graphs and pos and name.startswith('networkx.') and sole(pos[0]) is not None and pos[0].term in self.graphs:
            r = self.graph_function(st, n, self.graphs[pos[0].term], name[9:], pos, kw)
            if r is not None:
                return [(st, r)]
        b = getattr(self, 'b_' + name.replace('.', '_'), None)
        if b is not None:
            r = b(pos, kw, st, n, out, tags)
            if r is not NotImplemented:
                return r
        # exceptions
        if name in EXC_PARENT or (name.split('.')[-1][:1].isupper() and name.endswith(('Error', 'Exception', 'Warning', 'Interrupt'))):
            loc = self.alloc(st, n, 'exc', cls=name, items=tuple(pos), term=T('exc', name))
            return [(st, mkv([('l', loc)], T('exc', name)))]
        if name in lib.GLOBAL_SETTERS:
            c = lib.GLOBAL_SETTERS[name]
            key = lib.GLOBAL_CLASSES.get(name, name)
            old = T('setting', key)
            restoring = any(contains(self.tm(st, v), old) for v in pos + list(kw.values())) or \
                (kw.get('**') is not None and contains(kw['**'].term, old))
            self.emit('global', n, st, name=name, what=c, restoring=restoring)
            if restoring:
                st.dirty = frozenset(d for d in st.dirty if d[0] != key)
            else:
                st.dirty = st.dirty | {(key, self.where(n), name)}
            loc = self.alloc(st, n, 'dict', attrs={}, open=True, elem=unk(old), term=old)
            return [(st, mkv([('l', loc)], old))]
        if name.startswith(('numpy.random.', 'random.')) and name.split('.')[-1] in (lib.DRAWS if name.startswith('numpy') else lib.STD_RANDOM) and name not in lib.RNG_CTORS:
            self.global_rng(st)
            loc = ('G', 'numpy') if name.startswith('numpy') else ('G', 'std')
            if loc not in st.heap:
                st.heap[loc] = O('rng', term=T('rng', 'std'), origin='global')
            return [(st, self.draw(st, [loc], name.split('.')[-1], pos, kw, n))]
        if name in lib.ENTROPY:
            self.emit('entropy', n, st, name=lib.ENTROPY[name])
            return [(st, unk(T('entropy', name, *self.argterms(st, pos, kw)), tags | {'!entropy:' + lib.ENTROPY[name]}, 'int'))]
        if name in lib.CLOCKS:
            self.emit('clock', n, st, name=name)
            return [(st, unk(self.site('clock', n), tags | {'!clock'}, 'float'))]
        if name in lib.RNG_CTORS:
            return [(st, self.new_rng(st, name, pos, kw, n))]
        if name in lib.SEEDED_FUNCS:
            given = [kw[k] for k in lib.SEEDED_FUNCS[name] if k in kw and sole(kw[k]) != ('c', 'NoneType', None)]
            if not given:
                self.global_rng(st)
                self.draw(st, [('G', 'numpy')], name, [], {}, n)
            else:
                for g in given:
                    ls = [l for l in locs(g) if st.heap[l].kind == 'rng']
                    if ls:
                        self.draw(st, ls, name, [], {}, n)
                    else:
                        r = self.new_rng(st, name, [g], {}, n)
                        self.draw(st, locs(r), name, [], {}, n)
        if name in lib.MUT_FUNCS:
            for i in lib.MUT_FUNCS[name]:
                if i < len(pos):
                    self.mutate(st, pos[i], n, name)
        if name == 'setattr' and len(pos) == 3:
            ok, c = cval(pos[1])
            self.store_attr(st, pos[0], c if ok else '?', pos[2], n)
            return [(st, NONE)]
        if 'out' in kw and locs(kw['out']):
            self.taint(st, kw['out'], tags)
            for l in locs(kw['out']):
                o = st.heap[l]
                if o.kind == 'tuple' and o.items:
                    for x in o.items:
                        self.mutate(st, x, n, name + '(out=)')
                else:
                    self.mutate(st, kw['out'], n, name + '(out=)', newterm=self.out_term(st, name, pos, kw))
            return [(st, kw['out'])]
        short = name[6:] if name.startswith('numpy.') else None
        if short in lib.UFUNC1 and len(pos) > 1:
            self.mutate(st, pos[1], n, name + '(out)', newterm=self.out_term(st, name, pos[:1], kw))
            return [(st, pos[1])]
        if short in lib.UFUNC2 and len(pos) > 2:
            self.mutate(st, pos[2], n, name + '(out)', newterm=self.out_term(st, name, pos[:2], kw))
            return [(st, pos[2])]
        if name.startswith('numpy.') and name.endswith('.at') and pos:
            self.mutate(st, pos[0], n, name)
            return [(st, NONE)]
        if name in lib.OUT_POS and len(pos) > lib.OUT_POS[name]:
            self.mutate(st, pos[lib.OUT_POS[name]], n, name + '(out)')
            return [(st, pos[lib.OUT_POS[name]])]
        for k in kw:
            if k.startswith('overwrite_') and cval(kw[k]) != (True, False):
                i = {'overwrite_a': 0, 'overwrite_b': 1, 'overwrite_x': 0, 'overwrite_input': 0}.get(k, 0)
                if i < len(pos):
                    self.mutate(st, pos[i], n, name + '(%s)' % k)
        at = self.argterms(st, pos, kw)
        if name in ('numpy.nan_to_num', 'numpy.array') and 'copy' in kw and cval(kw['copy']) != (True, True) and pos:
            if name == 'numpy.nan_to_num':
                self.mutate(st, pos[0], n, name + '(copy=False)')
                return [(st, pos[0])]
            return [(st, self.view_of(st, n, pos[0], T('call', 'identity', self.tm(st, pos[0])), tags))]
        if name in ('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.asarray_chkfinite', 'numpy.asfortranarray', 'numpy.require'):
            if pos and self.isarr(st, pos[0]) and len(pos[0].atoms) == 1:
                return [(st, self.view_of(st, n, pos[0], self.tm(st, pos[0]), tags))]
        if name in lib.VIEW_FUNCS and pos and self.isarr(st, pos[0]):
            if name == 'numpy.diag':
                sh = self.shape(self.tm(st, pos[0]))
                if sh is not None and len(sh) != 2:
                    return [(st, self.newarr(st, n, T('call', name, *at), tags))]
            if name.endswith('split') or name == 'numpy.broadcast_arrays':
                e = self.view_of(st, n, pos[0], T('idx', T('call', name, *at), T('site', 'piece')), tags, sub='piece')
                return [(st, self.newlist(st, n, 'list', None, e, tags, term=T('call', name, *at)))]
            return [(st, self.view_of(st, n, pos[0], T('call', name, *at), tags))]
        if name in ('numpy.copy', 'numpy.array') and pos:
            t = self.tm(st, pos[0])
            return [(st, self.newarr(st, n, t, tags, typ=self.elem_type(st, pos[0])))]
        t = T('call', lib.ALIASES.get(name, name), *at)
        if name in lib.ALIASES and lib.ALIASES[name] in '+-*/' and len(pos) == 2 and not kw:
            t = T({'+': 'Add', '-': 'Sub', '*': 'Mult', '/': 'Div'}[lib.ALIASES[name]], *at)
        if name in lib.SCALAR_FUNCS and name != 'len':
            return [(st, unk(t, tags, 'bool' if name in ('numpy.allclose', 'numpy.array_equal', 'numpy.isscalar') else 'num'))]
        if name in lib.REDUCTIONS:
            ax = kw.get('axis') or (pos[1] if len(pos) > 1 and name != 'numpy.linalg.norm' else None)
            if ax is None or cval(ax) == (True, None):
                ty = 'int' if name.endswith(('argmin', 'argmax', 'count_nonzero')) else 'bool' if name in ('numpy.all', 'numpy.any') else 'num'
                return [(st, unk(t, tags, ty))]
            return [(st, self.newarr(st, n, t, tags))]
        if name in ELEMWISE and not any(self.isarr(st, v) or self.maybe_seq(st, v) for v in pos):
            return [(st, unk(t, tags, 'num'))]
        if name in ('numpy.where', 'numpy.nonzero') and len(pos) == 1:
            e = self.newarr(st, n, T('idx', t, C(0)), tags, sub='ind', typ='int')
            sh = self.shape(self.tm(st, pos[0]))
            if sh is not None and len(sh) == 1 or sh is None:
                return [(st, self.newlist(st, n, 'tuple', (e,), None, tags, term=t))]
            es = [e] + [self.newarr(st, n, T('idx', t, C(i)), tags, sub='ind%d' % i, typ='int') for i in range(1, len(sh))]
            return [(st, self.newlist(st, n, 'tuple', tuple(es), None, tags, term=t))]
        tail = name.split('.')[-1]
        if name.startswith(('numpy.linalg.', 'scipy.linalg.')) and tail in ('eigh', 'eig', 'qr', 'svd', 'slogdet', 'eigh_tridiagonal', 'lu', 'eig_banded') and not (
                tail == 'eigh' and 'eigvals_only' in kw and cval(kw['eigvals_only']) == (True, True)) and not (
                tail == 'svd' and 'compute_uv' in kw) and not (tail == 'qr' and cval(kw.get('mode', NONE)) == (True, 'r')):
            k = 3 if tail in ('svd', 'lu') else 2
            es = []
            for i in range(k):
                if tail == 'slogdet':
                    es.append(unk(T('idx', t, C(i)), tags, 'float'))
                else:
                    es.append(self.newarr(st, n, T('idx', t, C(i)), tags, sub='o%d' % i))
            return [(st, self.newlist(st, n, 'tuple', tuple(es), None, tags, term=t))]
        if tail == 'eigh' and 'eigvals_only' in kw:
            t = T('call', 'numpy.linalg.eigvalsh', at[0])
            return [(st, self.newarr(st, n, t, tags))]
        if name.startswith(('numpy.', 'scipy.linalg', 'scipy.special', 'scipy.integrate')) and not name.startswith('numpy.poly1d'):
            if name.startswith('scipy.special') and not any(self.isarr(st, v) for v in pos):
                return [(st, unk(t, tags, 'float'))]
            typ = None
            if name in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.arange', 'numpy.full'):
                dt = kw.get('dtype') or (pos[1] if len(pos) > 1 and name in ('numpy.zeros', 'numpy.ones', 'numpy.empty') else None)
                if dt is not None and sole(dt) is not None and sole(dt)[0] == 'x':
                    typ = {'int': 'int', 'numpy.int64': 'int', 'numpy.int32': 'int', 'bool': 'bool', 'numpy.bool_': 'bool', 'float': 'float'}.get(sole(dt)[1])
                elif name == 'numpy.arange' and all(self.is_int(v) for v in pos):
                    typ = 'int'
                elif dt is None and name != 'numpy.arange':
                    typ = 'float'
            if name in ('numpy.flatnonzero', 'numpy.argsort', 'numpy.setdiff1d', 'numpy.delete', 'numpy.searchsorted', 'numpy.argwhere'):
                typ = 'int' if name not in ('numpy.setdiff1d', 'numpy.delete') else self.elem_type(st, pos[0])
            return [(st, self.newarr(st, n, t, tags, typ=typ))]
        # anything else: an opaque fresh object
        self.call_user_args(st, pos, kw, n, out)
        loc = self.alloc(st, n, 'ext', term=t, tags=tags, typ='poly1d' if name == 'numpy.poly1d' else None,
                         bases=())
        return [(st, mkv([('l', loc)], t, tags))]

    def call_user_args(self, st, pos, kw, n, out):
        """package functions handed to a library (integrators, progress bars) may be called by it"""
        for v in list(pos) + list(kw.values()):
            for a in v.atoms:
                if a[0] == 'f':
                    k = len(a[1].node.args.args)
                    self.call_fn(a, [unk(T('libarg', i)) for i in range(k - len(a[1].node.args.defaults))], {}, st.clone(), n, Out())

    def elem_type(self, st, v):
        o = self.the_obj(st, v)
        if o is None:
            return None
        if o.kind == 'array':
            return o.typ
        return None

    def is_int(self, v):
        return all((a[0] == 'c' and a[1] == 'int') or (a[0] == 'u' and a[1] == 'int') for a in v.atoms)

    def maybe_seq(self, st, v):
        return any(a[0] == 'l' and st.heap.get(a[1]) is not None and st.heap[a[1]].kind in ('list', 'tuple', 'array', 'iter') for a in v.atoms)

    def view_of(self, st, n, v, term, tags, sub=''):
        bases = [l for l in locs(v) if st.heap.get(l) is not None and st.heap[l].kind == 'array']
        typ = self.elem_type(st, v)
        return self.newarr(st, n, term, tags | v.tags, sub=sub, bases=bases, typ=typ)

    def canon(self, name):
        for a, b in (('np.', 'numpy.'), ('scipy.linalg.lapack~', ''), ('numpy.core.', 'numpy.'), ('numpy.matlib.', 'numpy.')):
            if name.startswith(a):
                name = b + name[len(a):]
        if name.startswith('numpy.random.mtrand.'):
            name = 'numpy.random.' + name[len('numpy.random.mtrand.'):]
        if name.startswith('matplotlib.pyplot.style'):
            name = 'matplotlib.style' + name[len('matplotlib.pyplot.style'):]
        return name

    def may_raise(self, st, n, out):
        out.exc.append((st.clone(), Exc('Exception', n, implicit=True)))

    def new_rng(self, st, name, pos, kw, n):
        args = list(pos) + list(kw.values())
        origin = 'entropy'
        if args and cval(args[0]) != (True, None):
            rl = [l for l in locs(args[0]) if st.heap.get(l) is not None and st.heap[l].kind == 'rng']
            if rl and name.endswith(('Generator', 'default_rng')):
                return args[0]
            origin = ('seed', self.tm(st, args[0]), args[0].tags)
        loc = self.alloc(st, n, 'rng', sub=name, term=self.site('rng', n), origin=origin, tags=tagsof(*args))
        self.emit('rngnew', n, st, loc=loc, origin=origin, tags=tagsof(*args))
        h = self.hooks.get('rngnew_')
        if h is not None:
            h(self, n, st, loc, origin)
        return mkv([('l', loc)], st.heap[loc].term, tagsof(*args))

    def draw(self, st, rlocs, method, pos, kw, n):
        dtags = tagsof(*pos) | tagsof(*kw.values())
        for l in rlocs:
            o = st.heap.get(l)
            self.emit('draw', n, st, loc=l, origin=o.origin if o is not None else None, method=method, tags=dtags)
            h = self.hooks.get('draw_')
            if h is not None:
                h(self, n, st, l, method, pos, kw)
        tags = tagsof(*pos) | tagsof(*kw.values())
        at = T('args', *self.argterms(st, pos, kw))
        t = T('draw', method, self.nid.get(n, 0), self.ctx, at)
        if method == 'shuffle':
            if pos:
                self.mutate(st, pos[0], n, 'shuffle', newterm=T('call', 'permute', self.tm(st, pos[0]), t))
            return NONE
        return self.draw_value(st, t, method, pos, kw, n, tags)

    def draw_value(self, st, t, method, pos, kw, n, tags):
        self.drawargs = getattr(self, 'drawargs', {})
        self.drawargs[t] = (method, tuple(self.tm(st, v) for v in pos), {k: self.tm(st, v) for k, v in kw.items()})
        scal = None
        sh = self.shape(t)
        typ = 'int' if method in ('randint', 'integers', 'binomial', 'poisson', 'choice', 'permutation', 'multinomial', 'randrange') else 'float'
        if method == 'choice' and pos and not self.is_int(pos[0]):
            typ = self.elem_type(st, pos[0])
        if method in ('permutation', 'multinomial', 'dirichlet', 'multivariate_normal', 'bytes', 'sample'):
            scal = False
        elif sh == ():
            scal = True
        elif sh is not None:
            scal = False
        elif 'size' in kw and cval(kw['size']) != (True, None):
            scal = False
        elif method in ('rand', 'randn'):
            scal = not pos
        if method == 'choice' and pos and scal is True:
            e = self.elem_of(st, pos[0], n)
            if e is not None and not self.isarr(st, pos[0]) and any(a[0] == 'l' for a in e.atoms):
                return mkv(e.atoms, t, tags)
        if scal is None and any(self.isarr(st, v) for v in pos):
            scal = False
        if scal is None or scal:
            return unk(t, tags, typ)
        return self.newarr(st, n, t, tags, typ=typ)

    # ---------------------------------------------------------------- methods of library objects
    def call_method(self, base, name, pos, kw, st, n, out):
        tags = tagsof(base, *pos) | tagsof(*kw.values())
        a = sole(base)
        if st.dirty:
            self.may_raise(st, n, out)
        if a is None:
            res = []
            for x in base.atoms:
                res += self.call_method(mkv([x], base.term, base.tags), name, pos, kw, st.clone(), n, out)
            return res
        if a[0] == 'c' and isinstance(a[2], (int, float)) and not isinstance(a[2], bool) and name in ('astype', 'item', 'conj', 'conjugate'):
            ty = pos[0].term if pos else None
            if name != 'astype':
                return [(st, base)]
            if ty is T('ext', 'int') and abs(a[2]) < 2 ** 52:
                return [(st, const(int(a[2])))]
            if ty is T('ext', 'float'):
                return [(st, const(float(a[2])))]
        if name == 'rvs':
            r = kw.get('random_state')
            ls = [l for l in locs(r) if st.heap[l].kind == 'rng'] if r is not None else []
            if r is not None and not ls and cval(r) != (True, None):
                rv = self.new_rng(st, 'rvs', [r], {}, n)
                ls = locs(rv)
            if not ls:
                o = st.heap.get(a[1]) if a[0] == 'l' else None
                rs = o.attrs.get('random_state') if o is not None and o.attrs else None
                ls = locs(rs) if rs is not None else []
            if not ls:
                self.global_rng(st)
                ls = [('G', 'numpy')]
            v = self.draw(st, ls, 'rvs', pos, {k: v for k, v in kw.items() if k != 'random_state'}, n)
            return [(st, self.newarr(st, n, v.term, tags) if 'size' in kw or pos else v)]
        if a[0] == 'l':
            l = a[1]
            o = st.heap.get(l)
            k = o.kind if o is not None else None
            if k == 'rng':
                h = self.hooks.get('fork_')
                r = h(self, n, st, l, name, pos, kw) if h is not None else None
                if r is not None:
                    return r
                return [(st, self.rng_method(st, l, o, name, pos, kw, n))]
            if k in ('list', 'tuple', 'set', 'iter'):
                return self.list_method(base, l, o, name, pos, kw, st, n, out, tags)
            if k == 'dict':
                return self.dict_method(base, l, o, name, pos, kw, st, n, out, tags)
            if k == 'array':
                return self.array_method(base, l, o, name, pos, kw, st, n, out, tags)
            if k == 'ext':
                if o.origin == 'param' or o.bases or True:
                    if name in lib.MUT_METHODS_GRAPH | {'set_array', 'add'} and (o.typ == 'graph' or o.origin != 'new' or o.bases):
                        self.mutate(st, base, n, '.' + name)
                t = T('call', 'meth:' + name, o.term, *self.argterms(st, pos, kw))
                if name in ('copy', 'deriv', 'integ', 'toarray', 'todense'):
                    if name.startswith('to'):
                        return [(st, self.newarr(st, n, T('call', 'meth:' + name, o.term), tags, typ='arr2'))]
                    return [(st, mkv([('l', self.alloc(st, n, 'ext', term=t, tags=tags, typ=o.typ))], t, tags))]
                if o.term in self.graphs:
                    r = self.graph_method(st, n, self.graphs[o.term], name, pos, kw)
                    if r is not None:
                        return [(st, r)]
                if o.typ == 'graph' and name in ('nodes', 'edges', 'neighbors', 'adjacency', 'degree'):
                    return [(st, mkv([('l', self.alloc(st, n, 'ext', term=t, tags=tags, bases=(l,)))], t, tags))]
                if o.typ == 'graph' and name.startswith('number_of'):
                    return [(st, unk(t, tags, 'int'))]
                self.call_user_args(st, pos, kw, n, out)
                self.saw_method(n, st, name, pos, kw)
                return [(st, mkv([('l', self.alloc(st, n, 'ext', term=t, tags=tags))], t, tags))]
            if k == 'exc':
                return [(st, unk(self.site('excm', n), tags))]
        if a[0] == 'c' and a[1] == 'str' or a[0] == 'u' and a[1] in ('str', 'str!'):
            return self.str_method(base, a, name, pos, kw, st, n, out, tags)
        if a[0] == 'm':
            # method of a member of a library object (ax.xaxis.set_ticks(...))
            root = a
            while root[0] == 'm':
                x = sole(root[1])
                if x is None:
                    break
                root = x
            d = self.dotted_member(a)
            if d and any(d.startswith(g) for g in lib.GLOBAL_OBJECTS) and name in (lib.MUT_METHODS_DICT | lib.MUT_METHODS_LIST | {'seed', 'set_state'}):
                self.emit('global', n, st, name=d + '.' + name, what='process-wide object', restoring=False)
            self.call_user_args(st, pos, kw, n, out)
            self.saw_method(n, st, name, pos, kw)
            t = T('call', 'meth:' + name, base.term, *self.argterms(st, pos, kw))
            return [(st, mkv([('l', self.alloc(st, n, 'ext', term=t, tags=tags))], t, tags))]
        # unknown receiver
        self.saw_method(n, st, name, pos, kw)
        if name in ('copy',):
            return [(st, unk(base.term, tags, a[1] if a[0] == 'u' else None))]
        if name in lib.DRAWS and a[0] == 'u' and a[1] is None and name not in ('f', 'power', 'sample', 'choice', 'shuffle', 'random', 'bytes', 'beta', 'gamma'):
            self.emit('draw', n, st, loc=('?', show(base.term)), origin='unknown', method=name)
        t = T('call', 'numpy.' + name if name in lib.METHOD_AS_FUNC else 'meth:' + name, base.term, *self.argterms(st, pos, kw))
        if name in lib.METHOD_AS_FUNC | {'astype', 'flatten', 'reshape', 'ravel', 'tolist', 'transpose'} and a[0] == 'u':
            c = self.rounded(base.term) if name == 'astype' and pos and pos[0].term is T('ext', 'int') and not kw else None
            if c is not None:
                return [(st, const(c, tags))]
            if name in ('astype', 'tolist', 'flatten'):
                t = T('call', 'identity', base.term)
            if name in ('sum', 'min', 'max', 'mean', 'all', 'any', 'prod', 'std', 'argmax', 'argmin') and not pos and not kw:
                return [(st, unk(t, tags, 'num'))]
            return [(st, self.newarr(st, n, t, tags))]
        return [(st, unk(t, tags))]

    graphs = {}

    def graph_method(self, st, n, nb, name, pos, kw):
        """a given graph, on the nodes 0, 1, ..."""
        es = [(i, j) for i, x in enumerate(nb) for j in x if i < j]

        def lst(xs, sub=''):
            return self.newlist(st, n, 'list', tuple(xs), None, frozenset(), sub='g' + sub)

        def row(i, x):
            return self.newlist(st, n, 'tuple', tuple(const(y) for y in x), None, frozenset(), sub='g%d' % i)
        if not pos and not kw:
            if name == 'nodes':
                return lst(const(i) for i in range(len(nb)))
            if name == 'edges':
                return lst([row(i, e) for i, e in enumerate(es)])
            if name in ('number_of_nodes', 'order'):
                return const(len(nb))
            if name in ('number_of_edges', 'size'):
                return const(len(es))
        if name in ('neighbors', 'adj') and len(pos) == 1 and cval(pos[0])[0] and cval(pos[0])[1] in range(len(nb)):
            return lst(const(i) for i in nb[cval(pos[0])[1]])
        return None

    def graph_function(self, st, n, nb, name, pos, kw):
        if name == 'is_connected':
            return const(True)
        if name in ('number_of_nodes', 'number_of_edges', 'nodes', 'edges', 'neighbors'):
            return self.graph_method(st, n, nb, name, pos[1:], kw)
        if name == 'incidence_matrix' and set(kw) <= {'oriented'} and len(pos) == 1:
            ori = cval(kw['oriented'])[1] if 'oriented' in kw else False
            es = [(i, j) for i, x in enumerate(nb) for j in x if i < j]
            m = [[(-1.0 if ori else 1.0) if v == e[0] else 1.0 if v == e[1] else 0.0 for e in es] for v in range(len(nb))]
            return self.newarr(st, n, T('call', 'numpy.array', T('tuple', *[T('tuple', *[C(x) for x in r]) for r in m])), frozenset(), typ='arr2')
        return None

    def saw_method(self, n, st, name, pos, kw):
        h = self.hooks.get('ext_')
        if h is not None:
            h(self, n, st, 'meth:' + name, pos, kw)

    def dotted_member(self, a):
        if a[0] == 'x':
            return a[1]
        if a[0] == 'm':
            x = sole(a[1])
            d = self.dotted_member(x) if x is not None else None
            return d + '.' + a[2] if d else None
        return None

    def rng_method(self, st, l, o, name, pos, kw, n):
        self.emit('rngcall', n, st, name=name, npos=None if self.unkstar else len(pos), kw=tuple(sorted(k for k in kw if k != '**')))
        if name in lib.DRAWS:
            return self.draw(st, [l], name, pos, kw, n)
        if name in lib.RESEED:
            self.emit('reseed', n, st, loc=l, origin=o.origin, method=name)
            if o.origin == 'global':
                self.emit('global', n, st, name='numpy.random.' + name, what='numpy global random state', restoring=False)
            return NONE
        if name in ('get_state', '__getstate__', '__reduce__'):
            return unk(T('rngstate', o.term))
        if name == '__class__':
            return mkv([('x', 'numpy.random.RandomState')], T('ext', 'RandomState'))
        return unk(self.site('rngm', n))

    def str_method(self, base, a, name, pos, kw, st, n, out, tags):
        if name == 'format':
            self.emit('strformat', n, st, fmt=a[2] if a[0] == 'c' else None, npos=None if self.unkstar else len(pos), kw=tuple(sorted(kw)))
        if name == 'join':
            if len(pos) != 1:
                self.emit('badcall', n, st, callee='str.join', problem='join() takes exactly one argument (%d given)' % len(pos))
                out.exc.append((st, Exc('TypeError', n, implicit=True)))
                return []
            items = self.known_items(st, pos[0])
            if items is not None and any(not self.could_be_str(i) for i in items):
                self.emit('badcall', n, st, callee='str.join', problem='sequence item is not a string')
                out.exc.append((st, Exc('TypeError', n, implicit=True)))
                return []
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha'):
            if a[0] == 'c' and pos and cval(pos[0])[0]:
                try:
                    return [(st, const(getattr(a[2], name)(cval(pos[0])[1]), tags))]
                except Exception:
                    pass
            if pos and name in ('startswith', 'endswith'):
                return [(st, unk(T('strpre', name, self.tm(st, base), self.tm(st, pos[0])), tags, 'bool'))]
            return [(st, unk(self.site('strm', n), tags, 'bool'))]
        if a[0] == 'u' and a[1] == 'str!' and name in ('lower', 'upper', 'strip', 'title', 'capitalize', 'casefold'):
            return [(st, base)]
        if a[0] == 'c' and name in ('lower', 'upper', 'strip', 'replace', 'capitalize', 'title', 'casefold') and all(cval(p)[0] for p in pos):
            try:
                return [(st, const(getattr(a[2], name)(*[cval(p)[1] for p in pos]), tags))]
            except Exception:
                pass
        if name == 'split':
            return [(st, self.newlist(st, n, 'list', None, unk(self.site('strm', n), tags, 'str'), tags))]
        if name not in dir(str):
            self.emit('noattr', n, st, cls='str', name=name)
        return [(st, unk(self.site('strm', n), tags, 'str'))]

    def could_be_str(self, v):
        return any(a[0] == 'u' and a[1] in (None, 'str', 'str!') or a[0] == 'c' and a[1] == 'str' for a in v.atoms)

    def list_method(self, base, l, o, name, pos, kw, st, n, out, tags):
        tm = self.tm(st, base)
        if name == 'copy' or name == '__copy__':
            return [(st, self.newlist(st, n, o.kind, o.items, o.elem, o.tags, term=tm, length=o.length))]
        if name == 'append' and pos:
            self.emit('append', n, st, loc=l, value=pos[0].term)
            h = self.hooks.get('append_')
            if h is not None:
                h(self, n, st, l, pos[0])
            o = st.heap[l]
            self.mutate(st, base, n, '.append', newterm=T('appended', tm, self.tm(st, pos[0])))
            o2 = st.heap[l]
            if o.items is not None and len(o.items) < 12:
                st.heap[l] = o2.rep(items=o.items + (pos[0],), tags=o.tags | pos[0].tags)
            else:
                e = self.elem_sum(o, ('app', self.nid[n]))
                e = pos[0] if e is None else self.join_v(e, pos[0], ('app', self.nid[n], self.ctx), 'e')
                st.heap[l] = o2.rep(items=None, elem=e, length=T('Add', self.len_of_obj(o), C(1)), tags=o.tags | pos[0].tags)
            return [(st, NONE)]
        if name in ('pop', 'popleft', 'insert', 'remove', 'index', 'count') and not kw and o.kind == 'list' and o.items is not None and all(cval(x)[0] for x in pos):
            c = [cval(x)[1] for x in pos]
            vals = [cval(x) for x in o.items]
            i = None
            if name == 'pop' and len(c) == 1 and isinstance(c[0], int) and -len(vals) <= c[0] < len(vals) or name == 'popleft' and vals:
                i = c[0] % len(vals) if c else 0
                its, ret = o.items[:i] + o.items[i + 1:], o.items[i]
            elif name == 'insert' and len(c) == 2 and isinstance(c[0], int) and len(vals) < 12:
                its = list(o.items)
                its.insert(c[0], pos[1])
                its, ret, i = tuple(its), NONE, 0
            elif name in ('remove', 'index', 'count') and len(c) == 1 and all(k for k, _ in vals):
                hits = [j for j, (_, x) in enumerate(vals) if x == c[0]]
                if name == 'count':
                    return [(st, const(len(hits), tags))]
                if not hits:
                    out.exc.append((st, Exc('ValueError', n, implicit=True)))
                    return []
                if name == 'index':
                    return [(st, const(hits[0], tags))]
                i = hits[0]
                its, ret = o.items[:i] + o.items[i + 1:], NONE
            elif 'fork_' in self.hooks and name == 'pop' and len(c) == 1 and isinstance(c[0], int):
                out.exc.append((st, Exc('IndexError', n, implicit=True)))
                return []
            if i is not None:
                self.mutate(st, base, n, '.' + name)
                st.heap[l] = st.heap[l].rep(items=tuple(its), elem=None, length=None, term=T('tuple', *[x.term for x in its]))
                return [(st, ret)]
        if name in ('pop', 'popleft'):
            self.mutate(st, base, n, '.pop')
            if o.items is not None and not pos and name == 'pop' and o.items:
                st.heap[l] = st.heap[l].rep(items=o.items[:-1])
                return [(st, o.items[-1])]
            e = self.elem_sum(o, ('pop', self.nid[n]))
            st.heap[l] = st.heap[l].rep(items=None, elem=e, length=T('Sub', self.len_of_obj(o), C(1)))
            return [(st, mkv(e.atoms, self.site('pop', n), e.tags | tags) if e is not None else unk(self.site('pop', n), tags))]
        if name in lib.MUT_METHODS_LIST and o.kind in ('list', 'iter') or name in lib.MUT_METHODS_SET and o.kind == 'set':
            e = self.elem_sum(o, ('lm', self.nid[n]))
            ln = self.len_of_obj(o)
            self.mutate(st, base, n, '.' + name)
            o2 = st.heap[l]
            if name == 'clear':
                st.heap[l] = o2.rep(items=(), elem=None, length=None)
            elif name in ('sort', 'reverse'):
                st.heap[l] = o2.rep(items=None, elem=e, length=ln, term=T('call', 'sorted', tm))
            elif name in ('extend', '__iadd__', 'update', 'extendleft'):
                ln2 = self.iter_len(st, pos[0]) if pos else C(0)
                ev = self.elem_of(st, pos[0], n) if pos else None
                e = e if ev is None else ev if e is None else self.join_v(e, ev, ('ext', self.nid[n], self.ctx), 'e')
                it = self.known_items(st, pos[0]) if pos else None
                if it is not None and o.items is not None and len(it) + len(o.items) < 12 and (o.kind != 'set' or self.distinct(st, list(o.items) + it) is not None):
                    if o.kind == 'set':
                        it = self.distinct(st, list(o.items) + it)[len(o.items):]
                    st.heap[l] = o2.rep(items=o.items + tuple(it), tags=o.tags | tags)
                else:
                    st.heap[l] = o2.rep(items=None, elem=e, length=T('Add', ln, ln2), term=T('concat', tm, self.tm(st, pos[0])) if pos else o2.term, tags=o.tags | tags)
            elif name == 'add' and o.kind == 'set' and pos and o.items is not None and len(o.items) < 12 and self.distinct(st, list(o.items) + pos[:1]) is not None:
                st.heap[l] = o2.rep(items=self.distinct(st, list(o.items) + pos[:1]), tags=o.tags | tags)
            elif name in ('insert', 'add', 'appendleft'):
                x = pos[-1] if pos else None
                e = e if x is None else x if e is None else self.join_v(e, x, ('ins', self.nid[n], self.ctx), 'e')
                st.heap[l] = o2.rep(items=None, elem=e, length=T('Add', ln, C(1)) if o.kind == 'list' else None, tags=o.tags | tags,
                                    term=T('appended', tm, self.tm(st, x)) if x is not None else o2.term)
            elif name in ('remove', 'discard'):
                st.heap[l] = o2.rep(items=None, elem=e, length=T('Sub', ln, C(1)) if name == 'remove' else None,
                                    term=T('removed', tm, self.tm(st, pos[0])) if pos else o2.term)
            else:
                st.heap[l] = o2.rep(items=None, elem=e, length=None)
            return [(st, NONE)]
        if name == 'index':
            return [(st, unk(T('call', 'index', tm, *self.argterms(st, pos, kw)), tags, 'int'))]
        if name == 'count':
            return [(st, unk(T('call', 'count', tm, *self.argterms(st, pos, kw)), tags, 'int'))]
        if o.kind == 'set' and name in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy', 'issubset', 'issuperset', 'isdisjoint'):
            t = T('call', 'set.' + name, tm, *self.argterms(st, pos, kw))
            a = self.const_set(st, base)
            bs = [self.const_set(st, x) for x in pos]
            if a is not None and None not in bs and not kw:
                if name.startswith('is') and len(bs) == 1:
                    return [(st, const({'issubset': set(a) <= set(bs[0]), 'issuperset': set(a) >= set(bs[0]), 'isdisjoint': not set(a) & set(bs[0])}[name], tags))]
                for b in bs:
                    a = {cval(v)[1]: v for v in set_op(name, a, b)}
                return [(st, self.newlist(st, n, 'set', tuple(a.values()), None, tags))]
            if name.startswith('is'):
                return [(st, unk(t, tags, 'bool'))]
            return [(st, self.newlist(st, n, 'set', None, self.elem_sum(o, ('so', self.nid[n])), tags, term=t))]
        if name == '__len__':
            return self.b_len([base], {}, st, n, out, tags)
        known = dir(list) + dir(set) if o.kind != 'tuple' else dir(tuple)
        if name not in known and o.kind != 'iter':
            self.emit('noattr', n, st, cls=o.kind, name=name)
            out.exc.append((st, Exc('AttributeError', n, implicit=True)))
            return []
        return [(st, unk(self.site('lm', n), tags))]

    def dict_method(self, base, l, o, name, pos, kw, st, n, out, tags):
        if name == 'get' and pos:
            ok, c = cval(pos[0])
            dflt = pos[1] if len(pos) > 1 else kw.get('default', NONE)
            if ok:
                if c in o.attrs:
                    v = o.attrs[c]
                    rest = [x for x in v.atoms if x[0] != 'unb']
                    if not rest:
                        return [(st, dflt)]
                    if len(rest) < len(v.atoms):
                        return [(st, mkv(rest, v.term, v.tags)), (st.clone(), dflt)]
                    return [(st, v)]
                if not o.open:
                    return [(st, dflt)]
                return [(st, unk(T('get', o.term, C(c)), o.tags)), (st.clone(), dflt)]
            return [(st, unk(T('get', o.term, self.tm(st, pos[0])), tags))]
        if name in ('items', 'keys', 'values'):
            if not o.open and len(o.attrs) <= 16:
                if name == 'items':
                    its = []
                    for i, (k, v) in enumerate(o.attrs.items()):
                        its.append(self.newlist(st, n, 'tuple', (const(k), v), None, v.tags, sub='i%d' % i))
                else:
                    its = [const(k) for k in o.attrs] if name == 'keys' else list(o.attrs.values())
                return [(st, self.newlist(st, n, 'list', tuple(its), None, o.tags, sub=name))]
            e = unk(self.site('dk', n), o.tags)
            if name == 'items':
                e = self.newlist(st, n, 'tuple', (e, o.elem if o.elem is not None else unk(self.site('dv', n), o.tags)), None, o.tags, sub='it')
            elif name == 'values' and o.elem is not None:
                e = o.elem
            return [(st, self.newlist(st, n, 'list', None, e, o.tags, sub=name, term=T('call', 'dict.' + name, o.term)))]
        if name == 'copy':
            loc = self.alloc(st, n, 'dict', attrs=dict(o.attrs), open=o.open, elem=o.elem, tags=o.tags, term=o.term)
            return [(st, mkv([('l', loc)], o.term, o.tags))]
        if name in lib.MUT_METHODS_DICT:
            if l[0] == 'D':
                # obj.__dict__.update(...)
                self.emit('dictstore', n, st, loc=l[1])
            self.mutate(st, base, n, '.' + name)
            o = st.heap[l]
            at, opn, elem = dict(o.attrs), o.open, o.elem
            ret = NONE
            if name == 'update':
                src = {}
                if pos:
                    p = self.the_obj(st, pos[0])
                    if p is not None and p.kind == 'dict':
                        src.update(p.attrs)
                        opn |= p.open
                    else:
                        it = self.known_items(st, pos[0])
                        if it is not None and all(self.the_obj(st, x) is not None and self.the_obj(st, x).items is not None and len(self.the_obj(st, x).items) == 2 and cval(self.the_obj(st, x).items[0])[0] for x in it):
                            for x in it:
                                k, v = self.the_obj(st, x).items
                                src[cval(k)[1]] = v
                        else:
                            opn = True
                src.update({k: v for k, v in kw.items() if k != '**'})
                if '**' in kw:
                    opn = True
                for k, v in src.items():
                    if any(x[0] == 'unb' for x in v.atoms) and k in at:
                        at[k] = self.join_v(at[k], v, ('upd', self.nid[n]), k)
                    else:
                        at[k] = v
            elif name in ('pop', 'setdefault') and pos:
                ok, c = cval(pos[0])
                if ok:
                    if name == 'pop':
                        ret = at.pop(c, None) or (pos[1] if len(pos) > 1 else unk(self.site('dpop', n)))
                        ret = mkv([x for x in ret.atoms if x[0] != 'unb'] or [('u', None)], ret.term, ret.tags)
                    else:
                        if c not in at:
                            at[c] = pos[1] if len(pos) > 1 else NONE
                        ret = at[c]
                else:
                    ret = elem or unk(self.site('dpop', n))
                    if name == 'setdefault' and len(pos) > 1:
                        opn, elem = True, pos[1] if elem is None else self.join_v(elem, pos[1], ('sd', self.nid[n]), 'e')
                        ret = elem
            elif name == 'clear':
                at, opn, elem = {}, False, None
            st.heap[l] = o.rep(attrs=at, open=opn, elem=elem, tags=o.tags | tags)
            return [(st, ret)]
        if name not in dir(dict):
            self.emit('noattr', n, st, cls='dict', name=name)
            out.exc.append((st, Exc('AttributeError', n, implicit=True)))
            return []
        return [(st, unk(self.site('dm', n), tags))]

    def rounded(self, t):
        """the integer that floor, ceil or rint of a number is"""
        if t.op == 'call' and t.args[0] in ('numpy.floor', 'numpy.ceil', 'numpy.rint', 'numpy.trunc') and len(t.args) == 2 and t.args[1].op == 'const' and type(t.args[1].args[0]) in (int, float) and math.isfinite(t.args[1].args[0]):
            return int({'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'trunc': math.trunc}[t.args[0][6:]](t.args[1].args[0]))
        return None

    def array_method(self, base, l, o, name, pos, kw, st, n, out, tags):
        tm = o.term
        if 'out' in kw and locs(kw['out']):
            self.taint(st, kw['out'], tags | o.tags | tagsof(*pos) | tagsof(*kw.values()))
            self.mutate(st, kw['out'], n, '.%s(out=)' % name)
            return [(st, kw['out'])]
        if name in ('copy', '__copy__', '__deepcopy__'):
            return [(st, self.newarr(st, n, tm, o.tags, typ=o.typ))]
        if name == 'astype':
            if 'copy' in kw and cval(kw['copy']) != (True, True):
                return [(st, self.newarr(st, n, tm, o.tags, bases=(l,)))]
            c = self.rounded(tm) if pos and pos[0].term is T('ext', 'int') else None
            if c is not None:
                return [(st, const(c, o.tags))]
            return [(st, self.newarr(st, n, tm, o.tags))]
        if name == 'tolist' and 'fork_' in self.hooks:
            c = self.closed(tm)
            if c is not None and len(getattr(c, 'shape', ())) == 1 and len(c.data) <= 8:
                return [(st, self.newlist(st, n, 'list', tuple(const(int(x) if isinstance(x, float) and x == int(x) and o.typ == 'int' else x, o.tags) for x in c.data), None, o.tags))]
        if name == 'tolist':
            sh = self.shape(tm)
            e = unk(self.site('tl', n), o.tags, o.typ if o.typ in ('int', 'float') else None)
            if sh is not None and len(sh) == 0:
                return [(st, unk(tm, o.tags))]
            return [(st, self.newlist(st, n, 'list', None, e, o.tags, term=tm, length=sh[0] if sh else T('len', tm)))]
        if name == 'flatten':
            return [(st, self.newarr(st, n, T('call', 'numpy.ravel', tm), o.tags, typ=o.typ))]
        if name in lib.VIEW_METHODS:
            at = self.argterms(st, pos, kw)
            if name == 'reshape' and len(pos) == 1:
                pass
            return [(st, self.newarr(st, n, T('call', 'numpy.' + name, tm, *at), o.tags, bases=(l,), typ=o.typ if o.typ != 'arr2' else None))]
        if name in lib.MUT_METHODS_ARRAY:
            if name == 'sort':
                self.mutate(st, base, n, '.sort', newterm=T('call', 'numpy.sort', tm))
            elif name == 'fill' and pos:
                self.mutate(st, base, n, '.fill')
            else:
                self.mutate(st, base, n, '.' + name)
            return [(st, NONE)]
        if name == 'item':
            return [(st, unk(T('idx', tm, *self.argterms(st, pos, kw)[:1]) if pos or kw else T('call', 'item', tm), tags, 'num'))]
        if name in lib.METHOD_AS_FUNC:
            return self.call_ext('numpy.' + name, None, [base] + pos, kw, st, n, out)
        if name.startswith('__') and name.endswith('__'):
            if name in ('__iadd__', '__isub__', '__imul__', '__itruediv__', '__setitem__'):
                self.mutate(st, base, n, '.' + name)
                return [(st, base)]
            return [(st, self.newarr(st, n, T('call', name, tm, *self.argterms(st, pos, kw)), tags))]
        if not self.ndarray_has(name):
            self.emit('noattr', n, st, cls='ndarray', name=name)
        return [(st, self.newarr(st, n, T('call', 'meth:' + name, tm, *self.argterms(st, pos, kw)), tags))]

    ND = None

    def ndarray_has(self, name):
        return self.ND is None or name in self.ND

    # ---------------------------------------------------------------- builtins
    def b_len(self, pos, kw, st, n, out, tags):
        if not pos:
            return NotImplemented
        v = pos[0]
        if sole(v) == ('c', 'NoneType', None):
            self.emit('none_op', n, st, op='len()', tags=v.tags)
            out.exc.append((st, Exc('TypeError', n, implicit=True)))
            return []
        t = self.iter_len(st, v)
        if sole(v) is not None and sole(v)[0] == 'c' and isinstance(sole(v)[2], str):
            return [(st, const(len(sole(v)[2]), tags))]
        if t.op == 'const':
            return [(st, const(t.args[0], tags))]
        return [(st, unk(t, tags, 'int'))]

    def whole(self, t):
        """a term without arguments whose value is a whole number, as a constant"""
        if t.op != 'const':
            v = self.closed(t)
            v = v.data[0] if hasattr(v, 'data') and len(v.data) == 1 else v
            if isinstance(v, (int, float)) and v == int(v):
                return C(int(v))
        return t

    def b_range(self, pos, kw, st, n, out, tags):
        ts = [self.tm(st, v) for v in pos]
        if 'fork_' in self.hooks:
            ts = [self.whole(t) for t in ts]
        start, stop, step = (C(0), ts[0], C(1)) if len(ts) == 1 else (ts[0], ts[1], C(1)) if len(ts) == 2 else tuple(ts[:3])
        t = T('call', 'range', *((start, stop) if step is C(1) else (start, stop, step)))
        if len(ts) == 1:
            t = T('call', 'range', stop)
        items = None
        if all(x.op == 'const' and isinstance(x.args[0], int) for x in (start, stop, step)) and step.args[0]:
            r = range(start.args[0], stop.args[0], step.args[0])
            if 'range_' in self.hooks:
                r = self.hooks['range_'](r)
            if len(r) <= (128 if 'fork_' in self.hooks else 4):
                items = tuple(const(i, tags) for i in r)
        if items is not None:
            return [(st, self.newlist(st, n, 'iter', items, None, tags, term=t))]
        loc = self.alloc(st, n, 'iter', typ='range', elem=unk(T('rangeelem', t), tags, 'int'), term=t, tags=tags, length=self.range_len(*([start, stop] if step is C(1) else [start, stop, step])),
                         attrs={'start': start, 'stop': stop, 'step': step})
        return [(st, mkv([('l', loc)], t, tags))]

    def b_enumerate(self, pos, kw, st, n, out, tags):
        items = self.known_items(st, pos[0])
        start = kw.get('start') or (pos[1] if len(pos) > 1 else const(0))
        ok, c = cval(start)
        if items is not None and ok and len(items) <= 12:
            its = tuple(self.newlist(st, n, 'tuple', (const(c + i), v), None, v.tags, sub='e%d' % i) for i, v in enumerate(items))
            return [(st, self.newlist(st, n, 'iter', its, None, tags))]
        e = self.elem_of(st, pos[0], n)
        if e is None:
            return [(st, self.newlist(st, n, 'iter', (), None, tags))]
        ln = self.iter_len(st, pos[0])
        it = T('site', 'elem', self.nid[n], self.ctx, 'i')
        self.range_of = getattr(self, 'range_of', {})
        self.range_of[it] = {'start': start.term, 'stop': T('Add', start.term, ln), 'step': C(1)}
        tup = self.newlist(st, n, 'tuple', (unk(it, tags, 'int'), e), None, e.tags, sub='e')
        return [(st, self.newlist(st, n, 'iter', None, tup, tags, length=ln, term=T('call', 'enumerate', self.tm(st, pos[0]), start.term)))]

    def b_zip(self, pos, kw, st, n, out, tags):
        its = [self.known_items(st, p) for p in pos]
        if its and all(i is not None for i in its) and len(its[0]) <= 12:
            z = tuple(self.newlist(st, n, 'tuple', tuple(x), None, tagsof(*x), sub='z%d' % i) for i, x in enumerate(zip(*its)))
            return [(st, self.newlist(st, n, 'iter', z, None, tags))]
        es = []
        for i, p in enumerate(pos):
            e = self.elem_of(st, p, n)
            es.append(e if e is not None else unk(self.site('z', n, i)))
        tup = self.newlist(st, n, 'tuple', tuple(es), None, tags, sub='z')
        ln = self.iter_len(st, pos[0]) if pos else C(0)
        return [(st, self.newlist(st, n, 'iter', None, tup, tags, length=ln, term=T('call', 'zip', *[self.tm(st, p) for p in pos])))]

    def b_map(self, pos, kw, st, n, out, tags):
        items = self.known_items(st, pos[1]) if len(pos) == 2 else None
        if items is not None and len(items) <= 8:
            sts, c0 = [(st, [])], self.ctx
            for k, x in enumerate(items):
                self.ctx = c0 + (('item', k),) if k else c0
                sts = [(s2, acc + [v]) for s, acc in sts for s2, v in self.call(pos[0], [x], {}, s, n, out)]
            self.ctx = c0
            r = []
            for s, acc in sts:
                s = s.clone()
                r.append((s, self.newlist(s, n, 'iter', tuple(acc), None, tagsof(*acc))))
            return r
        es = [self.elem_of(st, p, n) for p in pos[1:]]
        if any(e is None for e in es):
            return [(st, self.newlist(st, n, 'iter', (), None, tags))]
        res = []
        ln = self.iter_len(st, pos[1])
        for s, v in self.call(pos[0], es, {}, st.clone(), n, out):
            s = s.clone()
            res.append((s, self.newlist(s, n, 'iter', None, v, tags | v.tags, length=ln, term=T('comp', v.term, self.tm(s, pos[1]), 0))))
        return res

    def b_filter(self, pos, kw, st, n, out, tags):
        items = self.known_items(st, pos[1]) if len(pos) == 2 and not kw else None
        if items is not None and len(items) <= 64 and cval(pos[0]) != (True, None):
            acc, s = [], st
            for x in items:
                r = self.call(pos[0], [x], {}, s, n, out)
                b = {self.atom_truth(r[0][0], a) for a in r[0][1].atoms} if len(r) == 1 else {None}
                if len(b) != 1 or None in b:
                    break
                s = r[0][0]
                acc += [x] * b.pop()
            else:
                s = s.clone()
                return [(s, self.newlist(s, n, 'iter', tuple(acc), None, tags))]
        e = self.elem_of(st, pos[1], n)
        res = []
        if e is None or cval(pos[0]) == (True, None):
            return [(st, self.newlist(st, n, 'iter', None, e, tags))]
        for s, v in self.call(pos[0], [e], {}, st.clone(), n, out):
            s = s.clone()
            res.append((s, self.newlist(s, n, 'iter', None, e, tags)))
        return res

    def b_reversed(self, pos, kw, st, n, out, tags):
        o = self.the_obj(st, pos[0])
        if o is not None and o.items is not None:
            return [(st, self.newlist(st, n, 'iter', tuple(reversed(o.items)), None, tags))]
        if o is not None and o.typ == 'range':
            a = o.attrs
            t = T('call', 'reversed', o.term)
            loc = self.alloc(st, n, 'iter', typ='range', elem=o.elem, term=t, tags=tags, length=o.length, attrs=a)
            return [(st, mkv([('l', loc)], t, tags))]
        e = self.elem_of(st, pos[0], n)
        return [(st, self.newlist(st, n, 'iter', None, e, tags, length=self.iter_len(st, pos[0]), term=T('call', 'reversed', self.tm(st, pos[0]))))]

    def seq_conv(self, kind, pos, kw, st, n, out, tags):
        if not pos:
            return [(st, self.newlist(st, n, kind, (), None, tags))]
        v = pos[0]
        items = self.known_items(st, v)
        if items is not None and kind != 'set':
            return [(st, self.newlist(st, n, kind, tuple(items), None, tags))]
        e = self.elem_of(st, v, n)
        if items is not None and kind == 'set':
            its = self.distinct(st, items)
            if its is not None:
                return [(st, self.newlist(st, n, kind, its, None, tags))]
        if kind == 'set':
            return [(st, self.newlist(st, n, 'set', None, e, tags, term=T('call', 'set', self.tm(st, v))))]
        o = self.the_obj(st, v)
        t = self.tm(st, v)
        if o is not None and o.typ == 'range':
            t = T('call', 'numpy.arange', *t.args[1:]) if t.op == 'call' and t.args[0] == 'range' else t
        if o is not None and o.kind == 'set':
            t = T('call', 'list', t)
            tags = tags | {'!setorder'} if self.set_order_matters(st, o) else tags
        if e is not None and o is not None and o.kind == 'array' and any(a[0] == 'l' for a in e.atoms):
            pass
        return [(st, self.newlist(st, n, kind, None, e, tags, term=t, length=self.iter_len(st, v)))]

    def set_order_matters(self, st, o):
        e = self.elem_sum(o, 'so')
        return e is not None and any(a[0] == 'u' and a[1] in ('str',) or a[0] == 'c' and a[1] == 'str' or a[0] == 'l' for a in e.atoms)

    def b_list(self, *a):
        return self.seq_conv('list', *a)

    def b_tuple(self, *a):
        return self.seq_conv('tuple', *a)

    def b_set(self, *a):
        return self.seq_conv('set', *a)

    b_frozenset = b_set

    def plain(self, st, v, depth=0):
        """(True, value) of a constant, or of a list or tuple of such"""
        ok, c = cval(v)
        if ok:
            return True, c
        o = self.the_obj(st, v)
        if o is None or o.kind not in ('list', 'tuple') or o.items is None or depth > 3:
            return False, None
        xs = [self.plain(st, x, depth + 1) for x in o.items]
        return (True, (list if o.kind == 'list' else tuple)(x[1] for x in xs)) if all(x[0] for x in xs) else (False, None)

    def b_sorted(self, pos, kw, st, n, out, tags):
        its = self.known_items(st, pos[0]) if self.hooks.get('fork_') and len(pos) == 1 and set(kw) <= {'reverse'} else None
        if its is not None:
            rev = cval(kw['reverse']) if 'reverse' in kw else (True, False)
            xs = [self.plain(st, x) for x in its]
            if rev[0] and all(x[0] for x in xs):
                try:
                    order = sorted(range(len(its)), key=lambda i: xs[i][1], reverse=bool(rev[1]))
                    return [(st, self.newlist(st, n, 'list', tuple(its[i] for i in order), None, frozenset(x for x in tags if x != '!setorder')))]
                except TypeError:
                    pass
        e = self.elem_of(st, pos[0], n)
        key = kw.get('key')
        if key is not None and e is not None:
            for s, v in self.call(key, [e], {}, st.clone(), n, out):
                pass
        return [(st, self.newlist(st, n, 'list', None, e, frozenset(x for x in tags if x != '!setorder'), term=T('call', 'sorted', self.tm(st, pos[0])), length=self.iter_len(st, pos[0])))]

    def b_dict(self, pos, kw, st, n, out, tags):
        at, opn, elem = {}, False, None
        if pos:
            o = self.the_obj(st, pos[0])
            if o is not None and o.kind == 'dict':
                at.update(o.attrs)
                opn, elem = o.open, o.elem
            else:
                its = self.known_items(st, pos[0])
                good = its is not None
                for x in its or []:
                    p = self.the_obj(st, x)
                    if p is not None and p.items is not None and len(p.items) == 2 and cval(p.items[0])[0]:
                        at[cval(p.items[0])[1]] = p.items[1]
                    else:
                        good = False
                opn = not good
        at.update({k: v for k, v in kw.items() if k != '**'})
        opn |= '**' in kw
        loc = self.alloc(st, n, 'dict', attrs=at, open=opn, elem=elem, tags=tags)
        return [(st, mkv([('l', loc)], st.heap[loc].term, tags))]

    def b_isinstance(self, pos, kw, st, n, out, tags):
        if len(pos) != 2:
            return NotImplemented
        v, c = pos
        cl = self.known_items(st, c) if self.the_obj(st, c) is not None else [c]
        names = []
        for x in cl or []:
            a = sole(x)
            names.append(a[1] if a is not None and a[0] in ('x', 'cls') else None)
        verdict = {}
        for a in v.atoms:
            verdict[a] = self.inst_of(st, a, names)
        vals = set(verdict.values())
        if vals == {True}:
            return [(st, TRUE)]
        if vals == {False}:
            return [(st, FALSE)]
        if None not in vals:
            res = []
            arg = n.args[0] if isinstance(n, ast.Call) and n.args else None
            for b in (True, False):
                s = st.clone()
                if arg is not None:
                    self.refine(s, arg, self.restrict(v, lambda a: verdict[a] == b))
                s.ctl |= v.tags
                s.path = (s.path, n, b, v.tags, T('isinstance', v.term, C(str(names))))
                res.append((s, const(b)))
            return res
        return [(st, unk(T('isinstance', v.term, C(str(names))), v.tags, 'bool'))]

    def inst_of(self, st, a, names):
        if None in names:
            return None
        ty = None
        if a[0] == 'c':
            ty = {'int', 'object'} if a[1] == 'int' else {'bool', 'int', 'object'} if a[1] == 'bool' else {a[1], 'object'}
        elif a[0] == 'u':
            if a[1] in ('int', 'str', 'float', 'bool'):
                ty = {a[1], 'object'}
            elif a[1] == 'str!':
                ty = {'str', 'object'}
            elif a[1] in ('num', 'num!'):
                ty = None
            elif a[1] == 'callable':
                ty = {'function', 'types.FunctionType', 'collections.abc.Callable', 'typing.Callable', 'object'}
            else:
                return None
            if ty is None:
                if all(x in ('str', 'list', 'tuple', 'dict', 'numpy.ndarray', 'numpy.random.RandomState') for x in names):
                    return False
                return None
        elif a[0] == 'l':
            o = st.heap.get(a[1])
            if o is None:
                return None
            if o.kind == 'inst':
                def anc(c):
                    r = {c}
                    for b in c.bases:
                        r |= anc(b[1]) if b[0] == 'cls' else {b[1]}
                    return r
                ty = anc(o.cls) | {'object'}
            else:
                ty = {'array': {'numpy.ndarray', 'object'}, 'list': {'list', 'object'}, 'tuple': {'tuple', 'object'}, 'dict': {'dict', 'object'}, 'set': {'set', 'object'},
                      'rng': {'numpy.random.RandomState', 'numpy.random.mtrand.RandomState', 'object'}, 'iter': {'object'}}.get(o.kind)
                if o.typ == 'poly1d':
                    ty = {'numpy.poly1d', 'object'}
                if o.typ == 'graph':
                    ty = {'networkx.Graph', 'object'}
                if ty is None:
                    return None
        elif a[0] in ('f', 'bm'):
            ty = {'types.FunctionType', 'object', 'collections.abc.Callable'}
        else:
            return None
        num = {'numbers.Number', 'numbers.Real', 'numbers.Integral', 'numpy.number'}
        if any(x in ty for x in names):
            return True
        if ty & {'int'} and any(x in ('numbers.Number', 'numbers.Real', 'numbers.Integral') for x in names):
            return True
        if ty & {'float'} and any(x in ('numbers.Number', 'numbers.Real') for x in names):
            return True
        return False

    def b_callable(self, pos, kw, st, n, out, tags):
        vals = set()
        for a in pos[0].atoms:
            if a[0] in ('f', 'bm', 'cls', 'x', 'm', 'partial') or a == ('u', 'callable'):
                vals.add(True)
            elif a[0] == 'c' or a[0] == 'u' and a[1] in ('int', 'str', 'float', 'str!', 'num', 'bool', 'num!', 'notcallable'):
                vals.add(False)
            elif a[0] == 'l' and st.heap.get(a[1]) is not None and st.heap[a[1]].kind in ('list', 'array', 'dict', 'tuple', 'set'):
                vals.add(False)
            else:
                vals.add(None)
        if len(vals) == 1 and None not in vals:
            return [(st, const(vals.pop(), tags))]
        return [(st, unk(T('callable', pos[0].term), tags, 'bool'))]

    def b_super(self, pos, kw, st, n, out, tags):
        fn = self.curfn
        while fn is not None and fn.cls is None:
            break
        if pos and len(pos) == 2:
            c = sole(pos[0])
            return [(st, mkv([('super', c[1], pos[1])], T('super')))] if c and c[0] == 'cls' else [(st, unk(T('super')))]
        if fn is None or fn.cls is None:
            return [(st, unk(T('super')))]
        a = fn.node.args
        me = st.frames[self.fid][(a.posonlyargs + a.args)[0].arg]
        return [(st, mkv([('super', self.classes[fn.mod + '.' + fn.cls], me)], T('super')))]

    def b_getattr(self, pos, kw, st, n, out, tags):
        ok, c = cval(pos[1]) if len(pos) > 1 else (False, None)
        if not ok:
            return [(st, unk(self.site('getattr', n), tags))]
        if len(pos) > 2:
            o = self.the_obj(st, pos[0])
            if o is not None and o.kind == 'inst':
                has = self.inst_has(o, c)
                if has is False:
                    return [(st, pos[2])]
                if has is None:
                    v = o.attrs[c]
                    rest = [x for x in v.atoms if x[0] != 'unb']
                    return [(st, self.join_v(mkv(rest, v.term, v.tags), pos[2], ('ga', self.nid[n]), c))]
        return self.attr(st, pos[0], c, n, out)

    def inst_has(self, o, c):
        if c in o.attrs:
            v = o.attrs[c]
            if not any(x[0] == 'unb' for x in v.atoms):
                return True
            return None if any(x[0] != 'unb' for x in v.atoms) else False
        return self.find_attr(o.cls, c) is not None

    def b_hasattr(self, pos, kw, st, n, out, tags):
        ok, c = cval(pos[1]) if len(pos) > 1 else (False, None)
        o = self.the_obj(st, pos[0])
        if ok and o is not None and o.kind == 'inst':
            h = self.inst_has(o, c)
            if h is not None:
                return [(st, const(h))]
        if ok and sole(pos[0]) is not None and sole(pos[0])[0] == 'f':
            l = self.fn_attrs(st, sole(pos[0])[1])
            return [(st, const(c in st.heap[l].attrs))]
        return [(st, unk(T('hasattr', pos[0].term, C(c)), tags, 'bool'))]

    def b_type(self, pos, kw, st, n, out, tags):
        if len(pos) == 1:
            o = self.the_obj(st, pos[0])
            if o is not None and o.kind == 'inst':
                return [(st, mkv([('cls', o.cls)], T('cls', o.cls.name)))]
            if o is not None and o.kind == 'rng':
                return [(st, mkv([('x', 'numpy.random.RandomState')], T('ext', 'RandomState')))]
            ok, c = cval(pos[0])
            if ok:
                return [(st, mkv([('x', type(c).__name__)], T('ext', type(c).__name__)))]
            if pos[0].atoms and all(a[0] == 'u' and a[1] in ('int', 'float', 'bool', 'str', 'str!') for a in pos[0].atoms):
                self.type_of[T('type', self.tm(st, pos[0]))] = {'str' if a[1] == 'str!' else a[1] for a in pos[0].atoms}
        return [(st, unk(T('type', *[self.tm(st, p) for p in pos]), tags))]

    def b_int(self, pos, kw, st, n, out, tags):
        if not pos:
            return [(st, const(0))]
        ok, c = cval(pos[0])
        if ok and isinstance(c, (int, float)):
            try:
                return [(st, const(int(c), tags))]
            except Exception:
                pass
        if self.is_int(pos[0]):
            return [(st, pos[0])]
        return [(st, unk(T('call', 'int', self.tm(st, pos[0])), tags, 'int'))]

    def b_float(self, pos, kw, st, n, out, tags):
        ok, c = cval(pos[0]) if pos else (True, 0.0)
        if ok and isinstance(c, (int, float)):
            return [(st, const(float(c), tags))]
        return [(st, unk(T('call', 'float', self.tm(st, pos[0])), tags, 'float'))]

    def b_bool(self, pos, kw, st, n, out, tags):
        return [(s, const(b, tags)) for s, b in self.truth(st, pos[0], n)] if pos else [(st, FALSE)]

    def b_str(self, pos, kw, st, n, out, tags):
        if pos and cval(pos[0])[0] and isinstance(cval(pos[0])[1], (str, int)):
            return [(st, const(str(cval(pos[0])[1]), tags))]
        return [(st, unk(T('call', 'str', *self.argterms(st, pos, kw)), tags, 'str'))]

    b_repr = b_str

    def b_print(self, pos, kw, st, n, out, tags):
        return [(st, NONE)]

    def b_next(self, pos, kw, st, n, out, tags):
        e = self.elem_of(st, pos[0], n)
        return [(st, e if e is not None else unk(self.site('next', n), tags))]

    def b_iter(self, pos, kw, st, n, out, tags):
        return [(st, pos[0])]

    def b_sum(self, pos, kw, st, n, out, tags):
        return [(st, unk(T('call', 'numpy.sum', self.tm(st, pos[0])), tags | self.deeptags(st, pos[0]), 'num'))]

    def deeptags(self, st, v, depth=3):
        r = v.tags
        if depth:
            for l in locs(v):
                o = st.heap.get(l)
                if o is None:
                    continue
                r = r | o.tags
                for x in (o.items or ()) + ((o.elem,) if o.elem is not None else ()):
                    r = r | self.deeptags(st, x, depth - 1)
                if o.attrs is not None and o.kind in ('dict',):
                    for x in o.attrs.values():
                        r = r | self.deeptags(st, x, depth - 1)
        return r

    def minmax(self, op, pos, kw, st, n, out, tags):
        if len(pos) > 1:
            cs = [cval(p) for p in pos]
            if all(c[0] and isinstance(c[1], (int, float)) for c in cs):
                return [(st, const((min if op == 'min' else max)(c[1] for c in cs), tags))]
            res = []
            # fork on the order of two numbers
            if len(pos) == 2 and not any(self.isarr(st, p) for p in pos):
                a, b = self.tm(st, pos[0]), self.tm(st, pos[1])
                f = self.cmp_terms(st, 'LtE', a, b)
                if f is not None:
                    return [(st, pos[0] if f == (op == 'min') else pos[1])]
                return [(st, unk(T('call', op, a, b), tags, 'int' if all(self.is_int(p) for p in pos) else 'num'))]
        return [(st, unk(T('call', op, *self.argterms(st, pos, kw)), tags, 'num'))]

    def b_min(self, *a):
        return self.minmax('min', *a)

    def b_max(self, *a):
        return self.minmax('max', *a)

    def b_abs(self, pos, kw, st, n, out, tags):
        if self.isarr(st, pos[0]):
            return [(st, self.newarr(st, n, T('call', 'numpy.abs', self.tm(st, pos[0])), tags))]
        ok, c = cval(pos[0])
        if ok and isinstance(c, (int, float)):
            return [(st, const(abs(c), tags))]
        return [(st, unk(T('call', 'abs', self.tm(st, pos[0])), tags, 'num'))]

    def b_any(self, pos, kw, st, n, out, tags):
        items = self.known_items(st, pos[0])
        if items is not None:
            cur, res = [st], []
            for x in items:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(s, x, n):
                        if b:
                            res.append((s2, TRUE))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(s, FALSE) for s in cur]
        return [(st, unk(T('call', 'numpy.any', self.tm(st, pos[0])), self.deeptags(st, pos[0]), 'bool'))]

    def b_all(self, pos, kw, st, n, out, tags):
        items = self.known_items(st, pos[0])
        if items is not None:
            cur, res = [st], []
            for x in items:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(s, x, n):
                        if not b:
                            res.append((s2, FALSE))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(s, TRUE) for s in cur]
        return [(st, unk(T('call', 'numpy.all', self.tm(st, pos[0])), self.deeptags(st, pos[0]), 'bool'))]

    def b_round(self, pos, kw, st, n, out, tags):
        return [(st, unk(T('call', 'round', *self.argterms(st, pos, kw)), tags, 'num'))]

    def b_copy_copy(self, pos, kw, st, n, out, tags):
        return self.copy_obj(st, pos[0], n, False)

    def b_copy_deepcopy(self, pos, kw, st, n, out, tags):
        return self.copy_obj(st, pos[0], n, True)

    def copy_obj(self, st, v, n, deep):
        at = []
        t = v.term
        for i, a in enumerate(v.atoms):
            if a[0] == 'l' and a[1] in st.heap:
                o = st.heap[a[1]]
                if o.kind == 'rng':
                    l = self.alloc(st, n, 'rng', 'copy', term=self.site('rng', n), origin=('copy', o.origin))
                    self.emit('rngnew', n, st, loc=l, origin=('copy', o.origin))
                else:
                    l = self.alloc(st, n, o.kind, 'copy%d' % i, cls=o.cls, attrs=dict(o.attrs) if o.attrs is not None else None, items=o.items, elem=o.elem,
                                   length=o.length, term=o.term, tags=o.tags, open=o.open, typ=o.typ)
                    if deep:
                        o2 = st.heap[l]
                        if o2.items is not None:
                            its = []
                            for j, x in enumerate(o2.items):
                                its.append(self.deep_elem(st, x, n, 'd%d' % j))
                            st.heap[l] = st.heap[l].rep(items=tuple(its))
                        if o2.elem is not None:
                            st.heap[l] = st.heap[l].rep(elem=self.deep_elem(st, o2.elem, n, 'de'))
                        if o2.attrs is not None:
                            st.heap[l] = st.heap[l].rep(attrs={k: self.deep_elem(st, x, n, 'da' + str(k)) for k, x in o2.attrs.items()})
                at.append(('l', l))
                t = st.heap[l].term
            else:
                at.append(a)
        return [(st, mkv(at, t if len(at) == 1 else v.term, v.tags))]

    def deep_elem(self, st, v, n, sub):
        at = []
        for a in v.atoms:
            if a[0] == 'l' and a[1] in st.heap:
                o = st.heap[a[1]]
                l = self.alloc(st, n, o.kind, sub, cls=o.cls, attrs=dict(o.attrs) if o.attrs is not None else None, items=o.items, elem=o.elem,
                               length=o.length, term=o.term, tags=o.tags, open=o.open, typ=o.typ)
                at.append(('l', l))
            else:
                at.append(a)
        return mkv(at, v.term, v.tags)

    def b_functools_partial(self, pos, kw, st, n, out, tags):
        if not pos:
            return NotImplemented
        return [(st, mkv([('partial', pos[0], tuple(pos[1:]), tuple(sorted(kw.items())))], self.site('partial', n), tags))]

    def b_itertools_count(self, pos, kw, st, n, out, tags):
        return [(st, self.newlist(st, n, 'iter', None, unk(self.site('count', n), tags, 'int'), tags))]

    def b_itertools_chain(self, pos, kw, st, n, out, tags):
        its = [self.known_items(st, p) for p in pos]
        if its and all(i is not None for i in its) and sum(map(len, its)) <= 64 and not kw:
            return [(st, self.newlist(st, n, 'iter', tuple(x for i in its for x in i), None, tags))]
        es = [self.elem_of(st, p, n) for p in pos]
        return [(st, self.newlist(st, n, 'iter', None, self.join_vals(es, ('chain', self.nid[n])), tags, term=T('call', 'chain', *self.argterms(st, pos, kw))))]

    def b_itertools_chain_from_iterable(self, pos, kw, st, n, out, tags):
        its = self.known_items(st, pos[0]) if len(pos) == 1 else None
        its = [self.known_items(st, p) for p in its] if its else None
        if its and all(i is not None for i in its) and sum(map(len, its)) <= 64:
            return [(st, self.newlist(st, n, 'iter', tuple(x for i in its for x in i), None, tags))]
        e = self.elem_of(st, pos[0], n)
        e2 = self.elem_of(st, e, n) if e is not None else None
        return [(st, self.newlist(st, n, 'iter', None, e2, tags, term=T('call', 'chain', *self.argterms(st, pos, kw))))]

    def b_itertools_product(self, pos, kw, st, n, out, tags):
        its = [self.known_items(st, p) for p in pos]
        k = cval(kw['repeat'])[1] if set(kw) == {'repeat'} and cval(kw['repeat'])[0] else 1 if not kw else None
        if its and all(i is not None for i in its) and isinstance(k, int) and 0 <= k <= 6 and math.prod([len(i) for i in its]) ** k <= 64:
            c0, res = self.ctx, []
            for j, xs in enumerate(itertools.product(*its, repeat=k)):
                self.ctx = c0 + (('item', j),) if j else c0
                res.append(self.newlist(st, n, 'tuple', tuple(xs), None, tags, sub='prod'))
            self.ctx = c0
            return [(st, self.newlist(st, n, 'iter', tuple(res), None, tags))]
        return [(st, self.newlist(st, n, 'iter', None, self.newarr(st, n, self.site('prod', n), tags), tags, term=T('call', 'itertools.product', *self.argterms(st, pos, kw))))]

    def b_numpy_random_seed(self, pos, kw, st, n, out, tags):
        self.emit('reseed', n, st, loc=('G', 'numpy'), origin='global', method='seed')
        return NotImplemented

    def b_numpy_shape(self, pos, kw, st, n, out, tags):
        if self.isarr(st, pos[0]) and len(pos[0].atoms) == 1:
            return [(st, self.arr_attr(st, pos[0], sole(pos[0]), self.the_obj(st, pos[0]), 'shape', n))]
        return NotImplemented

    def b_numpy_size(self, pos, kw, st, n, out, tags):
        if len(pos) == 1 and self.isarr(st, pos[0]) and len(pos[0].atoms) == 1:
            return [(st, self.arr_attr(st, pos[0], sole(pos[0]), self.the_obj(st, pos[0]), 'size', n))]
        return NotImplemented

    def b_numpy_append(self, pos, kw, st, n, out, tags):
        t = T('call', 'numpy.append', *self.argterms(st, pos, kw))
        return [(st, self.newarr(st, n, t, tags, typ=self.elem_type(st, pos[0])))]

    def b_numpy_geterr(self, pos, kw, st, n, out, tags):
        t = T('setting', 'np.err')
        loc = self.alloc(st, n, 'dict', attrs={}, open=True, elem=unk(t), term=t)
        return [(st, mkv([('l', loc)], t))]

    def b_numpy_get_printoptions(self, pos, kw, st, n, out, tags):
        t = T('setting', 'np.print')
        loc = self.alloc(st, n, 'dict', attrs={}, open=True, elem=unk(t), term=t)
        return [(st, mkv([('l', loc)], t))]

    def b_object___init__(self, pos, kw, st, n, out, tags):
        return [(st, NONE)]
