"""Statements of the abstract interpreter."""
import ast
from . import lib
from .terms import T, C, Term, show, subterms, contains
from .engine import (V, O, Out, Exc, Fn, Cls, State, Giveup, mkv, const, unk, cval, locs, sole, tagsof, NONE, TRUE, FALSE,
                     UNB, UNB0, NOTAGS, own_nodes, new_state)
from .interp import OPN, EXC_PARENT
from .calls import Analyzer

SITED = ('site', 'draw', 'phi', 'mut', 'elem', 'old')


class Program(Analyzer):
    def __init__(self, *a, **k):
        self.classes = {}
        self.fns = {}
        super().__init__(*a, **k)

    # ================================================================ blocks
    def exec_block(self, stmts, states, out):
        for s in stmts:
            if not states:
                return []
            nxt = []
            if len(states) > self.loop_states and isinstance(s, (ast.For, ast.While)):
                self.curnode = s
                states = self.reduce(states, ('pre', self.nid[s], self.ctx), self.loop_states)
            for st in states:
                nxt += self.exec(s, st, out)
            self.curnode = s
            states = self.reduce(nxt, ('stmt', self.nid[s], self.ctx)) if len(nxt) > 1 else nxt
        return states

    def exec(self, n, st, out):
        self.tick()
        self.curnode = n
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            self.notes.add('statement %s not modelled' % type(n).__name__)
            return [st]
        return m(n, st, out)

    def x_Pass(self, n, st, out):
        return [st]

    def x_Expr(self, n, st, out):
        if isinstance(n.value, ast.Constant):
            return [st]
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            res = []
            for s, v in self.ev(n.value.value, st, out) if n.value.value is not None else [(st, NONE)]:
                s = s.clone()
                f = dict(s.frames[self.fid])
                if isinstance(n.value, ast.YieldFrom):
                    v = self.elem_of(s, v, n) or NONE
                y = f.get('%yield')
                f['%yield'] = v if y is None else self.join_v(y, v, ('y', self.nid[n]), 'y')
                s.frames[self.fid] = f
                res.append(s)
            return res
        return [s for s, _ in self.ev(n.value, st, out)]

    def x_Assert(self, n, st, out):
        res = []
        for s, b in self.cond(n.test, st, out):
            if b:
                res.append(s)
            else:
                out.exc.append((s, Exc('AssertionError', n)))
        return res

    def x_Global(self, n, st, out):
        return [st]

    x_Nonlocal = x_Global

    def x_Delete(self, n, st, out):
        sts = [st]
        for t in n.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Name):
                    s = s.clone()
                    self.setvar(s, t.id, UNB)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, (b, i) in self.evs([t.value, t.slice], s, out):
                        s2 = s2.clone()
                        o, (ok, c) = self.the_obj(s2, b), cval(i)
                        if 'fork_' in self.hooks and o is not None and o.kind == 'list' and o.items is not None and ok and isinstance(c, int) and not -len(o.items) <= c < len(o.items):
                            out.exc.append((s2, Exc('IndexError', t, implicit=True)))
                            continue
                        self.del_item(s2, b, i, t)
                        nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s, out):
                        s2 = s2.clone()
                        self.store_attr(s2, b, t.attr, UNB, t)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    @staticmethod
    def const_slice(t):
        if t.op == 'slice' and all(x.op == 'const' for x in t.args):
            return slice(*[x.args[0] for x in t.args])

    def del_item(self, st, b, i, n):
        for l in locs(b):
            o = st.heap.get(l)
            if o is None:
                continue
            it = self.tm(st, i)
            old = self.tm(st, mkv([('l', l)], b.term))
            self.mutate_loc(st, l, n, 'del', T('delitem', old, it), len(b.atoms) > 1, {})
            o2 = st.heap[l]
            if o.kind == 'list':
                ok, c = cval(i)
                if ok and o.items is not None and isinstance(c, int) and -len(o.items) <= c < len(o.items):
                    items = list(o.items)
                    del items[c]
                    st.heap[l] = o2.rep(items=tuple(items))
                elif o.items is not None and sole(i) is not None and sole(i)[0] == 'slice' and self.const_slice(it) is not None and len(b.atoms) == 1:
                    items = list(o.items)
                    del items[self.const_slice(it)]
                    st.heap[l] = o2.rep(items=tuple(items))
                else:
                    one = self.idx_kind(st, i) == 'int'
                    st.heap[l] = o2.rep(items=None, elem=self.elem_sum(o, ('del', self.nid.get(n))),
                                        length=T('Sub', self.len_of_obj(o), C(1)) if one else None)
            elif o.kind == 'dict':
                ok, c = cval(i)
                if ok:
                    a = dict(o.attrs)
                    a.pop(c, None)
                    st.heap[l] = o2.rep(attrs=a)

    # ---------------------------------------------------------------- assignment
    def x_Assign(self, n, st, out):
        res = []
        # a, b = b, a with tuple displays keeps the values apart without an intermediate object
        for s, v in self.ev(n.value, st, out):
            sts = [s.clone()]
            for t in n.targets:
                sts = [s3 for s2 in sts for s3 in self.assign(t, v, s2, out)]
            res += sts
        return res

    def x_AnnAssign(self, n, st, out):
        if n.value is None:
            return [st]
        res = []
        for s, v in self.ev(n.value, st, out):
            res += self.assign(n.target, v, s.clone(), out)
        return res

    def assign(self, t, v, st, out):
        """st is owned by the caller and may be changed"""
        if isinstance(t, ast.Name):
            self.setvar(st, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.known_items(st, v)
            sts = [st]
            if items is not None and not star:
                if len(items) != k:
                    self.emit('unpack', t, st, want=k, got=len(items))
                    out.exc.append((st, Exc('ValueError', t, implicit=True)))
                    return []
                vals = items
            elif items is not None and star and len(items) >= k - 1:
                i = star[0]
                m = len(items) - (k - 1)
                vals = items[:i] + [self.newlist(st, t, 'list', tuple(items[i:i + m]), None)] + items[i + m:]
            else:
                vals = []
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        vals.append(self.newlist(st, t, 'list', None, self.elem_of(st, v, t), v.tags))
                    else:
                        w = self.subscript(st, v, const(i), e, out)
                        vals.append(w if w is not None else unk(T('idx', v.term, C(i)), v.tags))
            for e, w in zip(t.elts, vals):
                sts = [s2 for s in sts for s2 in self.assign(e.value if isinstance(e, ast.Starred) else e, w, s, out)]
            return sts
        if isinstance(t, ast.Attribute):
            res = []
            for s, b in self.ev(t.value, st, out):
                s = s.clone()
                self.store_attr(s, b, t.attr, v, t)
                res.append(s)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for s, (b, i) in self.evs([t.value, t.slice], st, out):
                s = s.clone()
                self.store_item(s, b, i, v, t)
                res.append(s)
            return res
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, out)
        return [st]

    def store_attr(self, st, b, name, v, n):
        ls = locs(b)
        for a in b.atoms:
            if a[0] == 'l':
                o = st.heap.get(a[1])
                if o is None:
                    continue
                if o.kind == 'inst':
                    self.emit('store', n, st, loc=a[1], attr=name, cls=o.cls.name, value=v.term)
                    h = self.hooks.get('store_')
                    if h is not None:
                        h(self, n, st, a[1], name, v)
                    at = dict(o.attrs)
                    if len(b.atoms) > 1 and name in at:
                        v2 = self.join_v(at[name], v, ('sa', self.nid.get(n), self.ctx), name)
                    else:
                        v2 = v
                    at[name] = v2
                    st.heap[a[1]] = o.rep(attrs=at)
                elif o.kind == 'array' and name == 'shape':
                    self.mutate(st, b, n, '.shape=')
                else:
                    self.mutate(st, b, n, '.%s=' % name)
                    o = st.heap[a[1]]
                    if o.kind in ('ext', 'dict') and o.kind == 'ext':
                        at = dict(o.attrs or {})
                        at[name] = v
                        st.heap[a[1]] = o.rep(attrs=at)
            elif a[0] == 'cls':
                self.emit('classstore', n, st, cls=a[1].name, attr=name)
                a[1].attrs.setdefault(name, v)
            elif a[0] == 'mod':
                self.emit('globalstore', n, st, name=a[1] + '.' + name)
            elif a[0] == 'x':
                self.emit('global', n, st, name=a[1] + '.' + name, what='attribute of an external module', restoring=False)
            elif a[0] == 'f':
                self.emit('fnstore', n, st, fn=a[1].qual, attr=name)
                l = self.fn_attrs(st, a[1])
                o = st.heap[l]
                at = dict(o.attrs)
                at[name] = v
                st.heap[l] = o.rep(attrs=at)
            elif a[0] == 'm':
                d = self.dotted_member(a)
                if d and any(d.startswith(g) for g in lib.GLOBAL_OBJECTS):
                    self.emit('global', n, st, name=d, what='process-wide object', restoring=False)

    def store_item(self, st, b, i, v, n):
        i = self.list_index(st, i, n, 'si')
        it, vt = self.tm(st, i), self.tm(st, v)
        for a in b.atoms:
            if a[0] == 'x' or a[0] == 'm':
                d = self.dotted_member(a)
                if d and any(self.canon(d).startswith(g) for g in lib.GLOBAL_OBJECTS):
                    self.emit('global', n, st, name=d + '[...]', what='process-wide object', restoring=False)
                continue
            if a[0] != 'l':
                continue
            l = a[1]
            o = st.heap.get(l)
            if o is None:
                continue
            if o.kind == 'inst':
                r = self.find_attr(o.cls, '__setitem__')
                if r is not None:
                    self.call_fn(sole(r[1]), [mkv([a], b.term), i, v], {}, st, n, Out())
                continue
            weak = len(b.atoms) > 1
            old = self.tm(st, mkv([a], b.term))
            h = self.hooks.get('setitem_')
            if h is not None:
                h(self, n, st, l, i, v)
            poly = o.kind == 'ext' and o.typ == 'poly1d'
            base = st.heap.get(o.bases[0]) if len(o.bases) == 1 and len(l) > 3 and l[0] == 'A' and str(l[3]).endswith('coef') and not weak else None
            self.mutate_loc(st, l, n, '[]=', T('call', 'polyset', old, it, vt) if poly and not weak else T('upd', old, it, vt) if not weak else None, weak, {})
            o2 = st.heap[l]
            if base is not None and base.typ == 'poly1d' and old == T('call', 'polycoef', base.term):
                st.heap[o.bases[0]] = st.heap[o.bases[0]].rep(term=T('call', 'polysetc', base.term, it, vt))
            if l[0] == 'D':
                self.emit('dictstore', n, st, loc=l[1])
            if o.kind == 'list':
                ok, c = cval(i)
                if o.items is not None and ok and isinstance(c, int) and -len(o.items) <= c < len(o.items) and not weak:
                    items = list(o.items)
                    items[c] = v
                    st.heap[l] = o2.rep(items=tuple(items), tags=o.tags | v.tags)
                elif o.items is not None and not weak and sole(i) is not None and sole(i)[0] == 'slice' and self.const_slice(it) is not None and \
                        len(v.atoms) == 1 and locs(v) and st.heap.get(locs(v)[0]) is not None and st.heap[locs(v)[0]].kind in ('list', 'tuple') and \
                        st.heap[locs(v)[0]].items is not None and (self.const_slice(it).step in (None, 1)):
                    items = list(o.items)
                    items[self.const_slice(it)] = list(st.heap[locs(v)[0]].items)
                    st.heap[l] = o2.rep(items=tuple(items), tags=o.tags | v.tags)
                else:
                    e = self.elem_sum(o, ('si', self.nid.get(n)))
                    w = v
                    if sole(i) is not None and sole(i)[0] == 'slice':
                        w = self.elem_of(st, v, n) or v
                    e = w if e is None else self.join_v(e, w, ('si', self.nid.get(n), self.ctx), 'e')
                    ln = self.len_of_obj(o) if not (sole(i) is not None and sole(i)[0] == 'slice') else None
                    st.heap[l] = o2.rep(items=None, elem=e, length=ln, tags=o.tags | v.tags | i.tags)
            elif o.kind == 'dict':
                ok, c = cval(i)
                if ok:
                    at = dict(o2.attrs)
                    at[c] = v if not weak or c not in at else self.join_v(at[c], v, ('di', self.nid.get(n)), str(c))
                    st.heap[l] = o2.rep(attrs=at, tags=o.tags | v.tags)
                else:
                    e = v if o.elem is None else self.join_v(o.elem, v, ('di', self.nid.get(n), self.ctx), 'e')
                    st.heap[l] = o2.rep(elem=e, open=True, tags=o.tags | v.tags | i.tags)
            elif o.kind in ('array', 'ext'):
                st.heap[l] = o2.rep(tags=o2.tags | v.tags | i.tags)

    def x_AugAssign(self, n, st, out):
        res = []
        op = OPN[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            ld = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
            self.nid.setdefault(ld, self.nid[t])
            for s, cur in self.ev(ld, st, out):
                for s2, v in self.ev(n.value, s, out):
                    s2 = s2.clone()
                    for s3, w in self.aug(s2, cur, op, v, n, out):
                        self.setvar(s3, t.id, w)
                        res.append(s3)
            return res
        if isinstance(t, ast.Attribute):
            for s, b in self.ev(t.value, st, out):
                for s1, cur in self.attr(s, b, t.attr, t, out):
                    for s2, v in self.ev(n.value, s1, out):
                        s2 = s2.clone()
                        for s3, w in self.aug(s2, cur, op, v, n, out):
                            self.store_attr(s3, b, t.attr, w, t)
                            res.append(s3)
            return res
        if isinstance(t, ast.Subscript):
            for s, (b, i) in self.evs([t.value, t.slice], st, out):
                s = s.clone()
                cur = self.subscript(s, b, i, t, out)
                if cur is None:
                    continue
                for s2, v in self.ev(n.value, s, out):
                    s2 = s2.clone()
                    s2, w = self.binop(s2, op, cur, v, n)
                    if self.isarr(s2, cur) is False and any(s2.heap.get(l) is not None and s2.heap[l].kind == 'list' for l in locs(cur)) and op == 'Add':
                        self.mutate(s2, cur, n, '+=')
                    self.store_item(s2, b, i, w, t)
                    res.append(s2)
            return res
        return [st]

    def aug(self, s, cur, op, v, n, out):
        """in-place operator on a variable: arrays and lists are changed in place"""
        arrl = [l for l in locs(cur) if s.heap.get(l) is not None and s.heap[l].kind in ('array', 'set', 'dict')]
        listl = [l for l in locs(cur) if s.heap.get(l) is not None and s.heap[l].kind == 'list' and op in ('Add', 'Mult')]
        if listl and len(cur.atoms) == 1 and op == 'Add':
            o = s.heap[listl[0]]
            r = self.list_method(cur, listl[0], o, 'extend', [v], {}, s, n, out, tagsof(cur, v))
            return [(s2, cur) for s2, _ in r]
        if listl and not arrl:
            self.mutate(s, cur, n, 'in-place ' + op)
            return [(s, cur)]
        if arrl:
            if any(s.heap[l].kind == 'array' for l in arrl):
                t = T(op, self.tm(s, cur), self.tm(s, v))
            else:
                t = None
            sub = mkv([a for a in cur.atoms if a[0] == 'l' and a[1] in arrl], cur.term, cur.tags)
            self.mutate(s, sub, n, 'in-place ' + op, newterm=t)
            for l in arrl:
                s.heap[l] = s.heap[l].rep(tags=s.heap[l].tags | v.tags)
            rest = [a for a in cur.atoms if not (a[0] == 'l' and a[1] in arrl)]
            if rest:
                s, w = self.binop(s, op, mkv(rest, cur.term, cur.tags), v, n)
                return [(s, self.join_v(mkv(sub.atoms, self.tm(s, sub), cur.tags | v.tags), w, ('aug', self.nid[n], self.ctx), 'a'))]
            return [(s, mkv(cur.atoms, self.tm(s, sub), cur.tags | v.tags))]
        s, w = self.binop(s, op, cur, v, n)
        return [(s, w)]

    # ---------------------------------------------------------------- control flow
    def x_If(self, n, st, out):
        res = []
        tb, fb = [], []
        for s, b in self.cond(n.test, st, out):
            (tb if b else fb).append(s)
        if tb:
            res += self.exec_block(n.body, tb, out)
        if fb:
            res += self.exec_block(n.orelse, fb, out) if n.orelse else fb
        return res

    def x_Return(self, n, st, out):
        if n.value is None:
            out.ret.append((st, NONE))
            return []
        for s, v in self.ev(n.value, st, out):
            out.ret.append((s, v))
        return []

    def x_Break(self, n, st, out):
        out.brk.append(st)
        return []

    def x_Continue(self, n, st, out):
        out.cont.append(st)
        return []

    def x_Raise(self, n, st, out):
        if n.exc is None:
            e = st.cur_exc
            out.exc.append((st, Exc(e.name if e is not None else 'Exception', n, val=e.val if e is not None else None)))
            return []
        for s, v in self.ev(n.exc, st, out):
            a = sole(v)
            name, args = 'Exception', ()
            if a is not None and a[0] == 'x':
                name = a[1].split('.')[-1]
            elif a is not None and a[0] == 'cls':
                name = a[1].name
            elif a is not None and a[0] == 'l' and s.heap.get(a[1]) is not None and s.heap[a[1]].kind == 'exc':
                o = s.heap[a[1]]
                name = o.cls if isinstance(o.cls, str) else o.cls.name
                args = o.items or ()
            elif a is not None and a[0] in ('c', 'u'):
                if a[0] == 'c':
                    self.emit('badraise', n, s, what=repr(a[2]))
                    name = 'TypeError'
            s = s.clone()
            ex = Exc(name.split('.')[-1], n, args, val=v)
            self.emit('raise', n, s, name=ex.name, nargs=len(args))
            out.exc.append((s, ex))
        return []

    def exc_matches(self, name, types):
        """True / False / None"""
        if types is None:
            return True
        x = name
        chain = []
        while x is not None:
            chain.append(x)
            c = None
            for q, cl in self.classes.items():
                if cl.name == x:
                    for b in cl.bases:
                        c = b[1].name if b[0] == 'cls' else b[1].split('.')[-1]
                    break
            x = c if c is not None else EXC_PARENT.get(x, None if x in ('BaseException', 'object') else 'Exception')
        if any(t in chain for t in types):
            return True
        if name == 'Exception':      # unspecified error: may be of any type
            return None
        return False

    def exc_types(self, node, st, out):
        if node is None:
            return None
        names = []
        for x in (node.elts if isinstance(node, ast.Tuple) else [node]):
            d = ast.unparse(x)
            names.append(d.split('.')[-1])
        return names

    def x_Try(self, n, st, out):
        body = Out()
        states = [st]
        implicit = []
        names = set()
        for h in n.handlers:
            names |= set(self.exc_types(h.type, st, out) or ('*',))
        old = self.guards
        self.guards = tuple(old) + (names,)
        for s in n.body:
            if not states:
                break
            if n.handlers and any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Import, ast.ImportFrom, ast.Assert)) for x in ast.walk(s)):
                imp = any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(s))
                onlyimp = isinstance(s, (ast.Import, ast.ImportFrom))
                for x in states:
                    implicit.append((x.clone(), 'ImportError' if onlyimp else 'any'))
            nxt = []
            for x in states:
                nxt += self.exec(s, x, body)
            states = self.reduce(nxt, ('stmt', self.nid[s], self.ctx))
        self.guards = old
        ends = []
        if n.orelse and states:
            o2 = Out()
            states = self.exec_block(n.orelse, states, o2)
            ends += states
            inner = Out()
            inner.brk, inner.cont, inner.ret, inner.exc = body.brk + o2.brk, body.cont + o2.cont, body.ret + o2.ret, list(o2.exc)
        else:
            ends += states
            inner = Out()
            inner.brk, inner.cont, inner.ret = body.brk, body.cont, body.ret
        # explicit exceptions
        pend = []
        for s, e in body.exc:
            left = True
            for h in n.handlers:
                m = self.exc_matches(e.name, self.exc_types(h.type, s, out))
                if m is not False:
                    pend.append((s, e, h))
                if m is True:
                    left = False
                    break
            if left:
                inner.exc.append((s, e))
        # implicit exceptions: one per handler
        for s, what in implicit:
            for h in n.handlers:
                ty = self.exc_types(h.type, s, out)
                if what == 'ImportError':
                    if ty is None or any(t in ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException') for t in ty):
                        pend.append((s, Exc('ImportError', n, implicit=True), h))
                        break
                else:
                    if ty is not None and all(t in ('ImportError', 'ModuleNotFoundError') for t in ty) and not any(isinstance(x, (ast.Import, ast.ImportFrom, ast.Call)) for b in n.body for x in ast.walk(b)):
                        continue
                    pend.append((s, Exc(ty[0] if ty else 'Exception', n, implicit=True), h))
        # merge equal pending states per handler to bound the work
        byh = {}
        for s, e, h in pend:
            byh.setdefault((h, e.name, e.implicit), []).append((s, e))
        for (h, _, _), lst in byh.items():
            sts = self.reduce([s for s, _ in lst], ('h', self.nid[h], self.ctx))
            e = lst[0][1]
            for s in sts:
                s = s.clone()
                sv = s.cur_exc
                s.cur_exc = e
                if h.name:
                    loc = self.alloc(s, h, 'exc', cls=e.name, items=e.args, term=T('exc', e.name))
                    self.setvar(s, h.name, mkv([('l', loc)], T('exc', e.name)))
                r = self.exec_block(h.body, [s], inner)
                for x in r:
                    x.cur_exc = sv
                ends += r
        if not n.finalbody:
            out.brk += inner.brk
            out.cont += inner.cont
            out.ret += inner.ret
            out.exc += inner.exc
            return ends
        # finally: runs on every exit
        res = self.exec_block(n.finalbody, ends, out) if ends else []
        for s in inner.brk:
            out.brk += self.exec_block(n.finalbody, [s], out)
        for s in inner.cont:
            out.cont += self.exec_block(n.finalbody, [s], out)
        for s, v in inner.ret:
            out.ret += [(x, v) for x in self.exec_block(n.finalbody, [s], out)]
        for s, e in inner.exc:
            out.exc += [(x, e) for x in self.exec_block(n.finalbody, [s], out)]
        return res

    x_TryStar = x_Try

    def x_With(self, n, st, out):
        states = [st]
        saved = []
        cms = []
        for it in n.items:
            nxt = []
            for s in states:
                for s2, v in self.ev(it.context_expr, s, out):
                    s2 = s2.clone()
                    a = sole(v)
                    o = self.the_obj(s2, v)
                    w = v
                    if o is not None and o.kind == 'inst':
                        r = self.find_attr(o.cls, '__enter__')
                        if r is not None:
                            for s3, w in self.call_fn(sole(r[1]), [v], {}, s2, it.context_expr, out):
                                s2 = s3
                    cms.append(v)
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, w, s2, out)
                    else:
                        nxt.append(s2)
            states = nxt
        # settings changed inside a restoring context manager are undone on exit
        restoring = None
        for it in n.items:
            d = ast.unparse(it.context_expr)
            for key, c in (('errstate', 'np.err'), ('printoptions', 'np.print'), ('catch_warnings', 'warnings'), ('rc_context', 'matplotlib'), ('style.context', 'matplotlib')):
                if key in d:
                    restoring = (restoring or set()) | {c}
        if restoring is None:
            return self.exec_block(n.body, states, out)
        inner = Out()
        before = states[0].dirty if states else frozenset()
        ends = self.exec_block(n.body, states, inner)

        def undo(s):
            s.dirty = frozenset(d for d in s.dirty if d in before or not any(d[0] == c or d[0].startswith(c) for c in restoring))
            return s
        out.brk += [undo(s) for s in inner.brk]
        out.cont += [undo(s) for s in inner.cont]
        out.ret += [(undo(s), v) for s, v in inner.ret]
        out.exc += [(undo(s), e) for s, e in inner.exc]
        return [undo(s) for s in ends]

    # ---------------------------------------------------------------- loops
    def assigned_names(self, n):
        r = getattr(n, '_assigned', None)
        if r is None:
            r = set()
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    r.add(x.id)
            n._assigned = r
        return r

    def loopkey(self, st, names):
        f = st.frames.get(self.fid, {})
        r = []
        for k in sorted(names):
            v = f.get(k)
            if isinstance(v, V) and len(v.atoms) == 1:
                a = next(iter(v.atoms))
                if a[0] == 'c' and (isinstance(a[2], (bool, str)) or a[2] is None):
                    r.append((k, a[2]))
                elif a[0] == 'l':
                    o = st.heap.get(a[1])
                    r.append((k, 'ref', o.kind if o is not None else '?'))
        return tuple(r)

    def local_terms(self, n):
        ids = getattr(n, '_nids', None)
        if ids is None:
            ids = n._nids = set(self.nid[x] for x in ast.walk(n) if x in self.nid)
        ctx = self.ctx
        k = len(ctx)

        def f(t, memo={}):
            return False
        memo = {}

        def local(t):
            r = memo.get(t)
            if r is not None:
                return r
            memo[t] = False
            r = False
            if t.op == 'site' and t.args[1] in ids and t.args[2] == ctx or t.op == 'draw' and t.args[1] in ids and t.args[2] == ctx or \
                    t.op == 'mut' and t.args[1] in ids and t.args[2] == ctx:
                r = True
            elif t.op in ('site', 'draw', 'mut') and len(t.args[2]) > k and t.args[2][:k] == ctx and t.args[2][k] in ids:
                r = True
            elif t.op == 'phi' and t in self.loopphis.get((n, ctx), ()):
                r = True
            else:
                r = any(local(a) for a in t.args if isinstance(a, Term))
            memo[t] = r
            return r
        return local

    loopphis = {}

    def purge(self, st, n, keepphi=True):
        """forget what is known about values of an earlier iteration"""
        local = self.local_terms(n)
        st = st.clone()
        site = ('loop', self.nid[n], self.ctx)

        def bad(k):
            if isinstance(k, Term):
                return local(k)
            if isinstance(k, tuple):
                return any(bad(x) for x in k)
            return False
        if st.facts:
            st.facts = {k: v for k, v in st.facts.items() if not bad(k) or isinstance(k, tuple) and k[0] == 'pred' and k[2].op == 'phi'}
        if st.iv:
            st.iv = {k: v for k, v in st.iv.items() if not bad(k)}
        return st

    def phiset(self, st, n):
        return st

    def run_loop(self, n, st, out, setup, exhaust, nonempty=False):
        """setup(state, out) -> states at the start of the body; exhaust(state, out) -> states leaving normally"""
        if 'fork_' in self.hooks:
            self.hooks['summarised'](self, n, st)
        names = self.assigned_names(n)
        site = ('loop', self.nid[n], self.ctx)
        heads = {self.loopkey(st, names): st}
        rnd = 0
        done = {}
        entrykey = next(iter(heads))
        while True:
            rnd += 1
            body = Out()
            newheads = dict(heads)
            backs = []
            recs = []
            for k, h in list(heads.items()):
                d = done.get(k)
                if d is None or d[0] is not h:
                    b1 = Out()
                    start = setup(self.purge(h, n), b1)
                    inner = Out()
                    ends = self.exec_block(n.body, start, inner) + inner.cont
                    inner.ret, inner.exc = b1.ret + inner.ret, b1.exc + inner.exc
                    d = done[k] = (h, start, ends, inner)
                h, start, ends, inner = d
                body.brk += inner.brk
                body.ret += inner.ret
                body.exc += inner.exc
                backs += ends
                recs.append((k, h, start, ends, inner))
            changed = False
            groups = {}
            for b in backs:
                groups.setdefault(self.loopkey(b, names), []).append(b)
            if len(set(groups) | set(heads)) > 5:
                # too many partitions: collapse into the entry head
                allb = backs + [h for h in heads.values()]
                j = self.join_all([st] + allb, site, True)
                newheads = {entrykey: j}
                changed = len(heads) > 1 or not self.same_state(j, heads[entrykey])
                self.collapse = True
                groups = {}
                if changed:
                    heads = newheads
                    if rnd > 14:
                        self.notes.add('loop at %s not stabilised' % self.where(n))
                        break
                    continue
                break
            for k, bs in groups.items():
                bs = [self.drop_loop_facts(b) for b in bs]
                if k in heads:
                    j = self.join_all([heads[k]] + bs, site, True)
                    same = self.same_state(j, heads[k])
                    if not same or len(j.facts) < len(heads[k].facts) or len(j.iv) < len(heads[k].iv):
                        newheads[k] = j
                        changed = True
                else:
                    newheads[k] = self.join_all(bs, (site, k), True)
                    changed = True
            self.note_phis(n, newheads)
            if not changed:
                break
            heads = newheads
            if rnd > 16:
                self.notes.add('loop at %s not stabilised' % self.where(n))
                break
        exits = []
        if nonempty:
            groups = {}
            for b in backs:
                groups.setdefault(self.loopkey(b, names), []).append(b)
            for k, bs in groups.items():
                exits.append(exhaust(self.join_all(bs, site + ('x',)), out))
        else:
            for k, h in heads.items():
                exits.append(exhaust(h, out))
        h = self.hooks.get('loop_')
        if h is not None:
            h(self, n, st, recs, exits, body)
        out.ret += body.ret
        out.exc += body.exc
        normal = [s for e in exits for s in e]
        if n.orelse and normal:
            normal = self.exec_block(n.orelse, self.reduce(normal, site + ('e',)), out)
        return normal + body.brk

    def note_phis(self, n, heads):
        s = self.loopphis.setdefault((n, self.ctx), set())
        idx = self.__dict__.setdefault('_phiidx', {})
        done = self.__dict__.get('_phidone', 0)
        if len(self.phis) > done:
            for t in list(self.phis)[done:]:
                site = self.phi_site(t)
                if site is not None:
                    for key in self.loops_of(site):
                        idx.setdefault(key, set()).add(t)
            self._phidone = len(self.phis)
        s |= idx.get(('loop', self.nid[n], self.ctx), set())

    def loops_of(self, site):
        out, todo = set(), [site]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                if len(x) >= 3 and x[0] == 'loop':
                    out.add(x[:3])
                todo += [y for y in x if isinstance(y, tuple)]
        return out

    def phi_site(self, t):
        inv = self.__dict__.setdefault('_skinv', {})
        if len(inv) != len(self._sk):
            for k, v in self._sk.items():
                inv[v] = k
        return inv.get(t.args[0])

    @staticmethod
    def site_in(site, key):
        if site == key:
            return True
        if isinstance(site, tuple):
            return any(Program.site_in(x, key) for x in site if isinstance(x, tuple))
        return False

    def drop_loop_facts(self, s):
        return s

    def x_For(self, n, st, out):
        res = []
        for s, itv in self.ev(n.iter, st, out):
            self.emit('iter', n, s, tags=itv.tags)
            if sole(itv) == ('c', 'NoneType', None):
                self.emit('none_op', n, s, op='iteration', tags=itv.tags)
                out.exc.append((s, Exc('TypeError', n, implicit=True)))
                continue
            items = self.known_items(s, itv)
            o = self.the_obj(s, itv)
            if items is not None and len(items) <= (128 if 'fork_' in self.hooks else 8) and not (o is not None and o.kind in ('list', 'set') and self.body_mutates(n, s, o, itv)):
                cur, brk = [s], []
                hh = self.hooks.get('unrolled_')
                ctx = self.ctx
                for k, x in enumerate(items):
                    self.ctx = ctx + (('item', k),) if k else ctx       # what an iteration draws and makes is its own
                    inner = Out()
                    nxt = []
                    for s1 in cur:
                        nxt += self.assign(n.target, x, s1.clone(), inner)
                    ends = self.exec_block(n.body, nxt, inner) + inner.cont
                    brk += inner.brk
                    out.ret += inner.ret
                    out.exc += inner.exc
                    cur = self.reduce(ends, ('unroll', self.nid[n], self.ctx))
                    if not cur:
                        break
                self.ctx = ctx
                if cur and n.orelse:
                    cur = self.exec_block(n.orelse, cur, out)
                res += cur + brk
                continue
            ln = self.iter_len(s, itv)
            nonempty = None
            r = self.cmp_terms(s, 'Gt', ln, C(0))
            never = r is False

            def setup(h, o2, itv=itv, s=s):
                if never:
                    return []
                h = h.clone()
                e = self.elem_of(h, itv, n)
                if e is None:
                    return []
                return self.assign(n.target, e, h, o2)

            def exhaust(h, o2):
                return [h]
            s = s.clone()
            res += self.run_loop(n, s, out, setup, exhaust, r is True)
        return res

    def body_mutates(self, n, st, o, v):
        return False

    x_AsyncFor = x_For

    def x_While(self, n, st, out):
        if 'fork_' in self.hooks:
            return self.unroll_while(n, st, out)

        def setup(h, o2):
            return [s.clone() for s, b in self.cond(n.test, h, o2) if b]

        def exhaust(h, o2):
            return [s for s, b in self.cond(n.test, h, Out()) if not b]
        return self.run_loop(n, st.clone(), out, setup, exhaust)

    def unroll_while(self, n, st, out, limit=12):
        cur, done, ctx = [st.clone()], [], self.ctx
        h = self.hooks.get('while_')
        if h is not None:
            limit = h(self, n, None, None) or limit
        for k in range(limit + 1):
            self.ctx = ctx + (('item', k),) if k else ctx
            go = []
            if h is not None:
                cur = h(self, n, k, cur)
            for s in cur:
                for s2, b in self.cond(n.test, s, out):
                    (go if b else done).append(s2)
            if not go:
                break
            if k == limit:
                raise Giveup('loop not bounded')
            inner = Out()
            cur = self.exec_block(n.body, go, inner) + inner.cont
            done += inner.brk       # (an else clause of the loop is not modelled: none is left by break and then else)
            out.ret += inner.ret
            out.exc += inner.exc
        self.ctx = ctx
        return done

    # ---------------------------------------------------------------- definitions
    def x_FunctionDef(self, n, st, out):
        fn = self.fnobj(n, n.name, getattr(n, '_cls', None))
        self.fns[fn.qual] = fn
        v = mkv([('f', fn, self.fid)], T('fn', fn.qual, self.ctx if self.curfn else ()))
        v = self.decorate(fn, n, v, st, out)
        st = st.clone()
        self.setvar(st, n.name, v)
        return [st]

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, fn, n, v, st, out):
        for d in reversed(n.decorator_list):
            txt = ast.unparse(d)
            base = txt.split('(')[0].split('.')[-1]
            if base == 'property' or txt.endswith('.getter') or base == 'cached_property':
                fn.dkind = 'property'
                if base == 'cached_property':
                    fn.cachedprop = True
            elif txt.endswith('.setter') or txt.endswith('.deleter'):
                pass
            elif base == 'staticmethod':
                fn.dkind = 'static'
            elif base == 'classmethod':
                fn.dkind = 'class'
            elif base in ('abstractmethod', 'wraps', 'njit', 'jit', 'override', 'overload'):
                pass
            elif base in ('lru_cache', 'cache'):
                fn.dkind = 'cached'
            else:
                r = self.ev(d, st, out)
                if r and any(a[0] in ('f', 'bm', 'cls') for a in r[0][1].atoms):
                    r2 = self.call(r[0][1], [v], {}, r[0][0], d, out)
                    if r2:
                        st.frames, st.heap = r2[0][0].frames, r2[0][0].heap
                        v = r2[0][1]
        return v

    def x_ClassDef(self, n, st, out):
        st = st.clone()
        cls = Cls(n, self.mod, n.name)
        self.classes[self.mod + '.' + n.name] = cls
        for b in n.bases:
            for s, v in self.ev(b, st, out):
                a = sole(v)
                if a is not None and a[0] in ('cls', 'x'):
                    cls.bases.append(a)
                else:
                    cls.bases.append(('x', 'unknown'))
        # class body runs in its own scope
        fid = ('C', self.mod, n.name)
        sv = self.save()
        st.frames[fid] = {'%closure': None}
        for x in n.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                x._cls = n.name
        self.fid = fid
        cf, self.curfn = self.curfn, None
        o2 = Out()
        ends = self.exec_block(n.body, [st], o2)
        self.restore(sv)
        if ends:
            st = self.join_all(ends, ('cls', n.name))
        f = st.frames.pop(fid, {})
        for k, v in f.items():
            if isinstance(v, V):
                # methods do not close over the class scope
                ats = [('f', a[1], self.fid if self.curfn else ('M', self.mod)) if a[0] == 'f' else a for a in v.atoms]
                cls.attrs[k] = mkv(ats, v.term, v.tags)
                for a in v.atoms:
                    if a[0] == 'l':
                        st.heap[a[1]] = st.heap[a[1]].rep(origin='static')
        self.setvar(st, n.name, mkv([('cls', cls)], T('cls', cls.name)))
        return [st]

    def x_Import(self, n, st, out):
        st = st.clone()
        for al in n.names:
            top = al.name.split('.')[0]
            self.emit('import', n, st, name=al.name)
            if self.missing(n, st, al.name, out):
                return []
            if top == self.pkg:
                self.load_dep(al.name, st)
                v = mkv([('mod', al.name if al.asname else top)], T('mod', al.name))
            else:
                v = mkv([('x', al.name if al.asname else top)], T('ext', al.name if al.asname else top))
            self.setvar(st, al.asname or top, v)
        return [st]

    def missing(self, n, st, name, out):
        """is the package not installed, in the configuration that is analysed?"""
        h = self.hooks.get('import_')
        if h is None or self.curfn is None or not h(name):
            return False
        self.emit('importfail', n, st, name=name)
        out.exc.append((st, Exc('ModuleNotFoundError', n)))
        return True

    def load_dep(self, m, st):
        if m in self.modtrees and m not in self.mods:
            sv = self.save()
            cs = self.curnode
            b = self.base
            self.base = st.clone()
            self.load(m)
            nb = self.base
            for k, v in nb.frames.items():
                st.frames[k] = v
            for k, v in nb.heap.items():
                st.heap.setdefault(k, v)
            self.base = b
            self.restore(sv)

    def x_ImportFrom(self, n, st, out):
        st = st.clone()
        m = n.module or ''
        if n.level:
            base = self.mod.split('.')
            if not self.modfile[self.mod].endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)]
            m = '.'.join(base + ([m] if m else []))
        self.emit('import', n, st, name=m)
        if self.missing(n, st, m, out):
            return []
        if m.split('.')[0] == self.pkg:
            self.load_dep(m, st)
            f = st.frames.get(('M', m)) or self.base.frames.get(('M', m)) or {}
            for al in n.names:
                if al.name == '*':
                    for k, v in f.items():
                        if not k.startswith('_'):
                            self.setvar(st, k, v)
                    continue
                if al.name in f:
                    v = f[al.name]
                elif m + '.' + al.name in self.modtrees:
                    self.load_dep(m + '.' + al.name, st)
                    v = mkv([('mod', m + '.' + al.name)], T('mod', m + '.' + al.name))
                else:
                    self.emit('badimport', n, st, module=m, name=al.name)
                    v = unk(T('import', m, al.name))
                self.setvar(st, al.asname or al.name, v)
            return [st]
        for al in n.names:
            if al.name == '*':
                continue
            d = m + '.' + al.name
            self.setvar(st, al.asname or al.name, mkv([('x', d)], T('ext', d)))
        return [st]

    # ---------------------------------------------------------------- entry points
    # ------------------------------------------------------------ what is known about terms (per judged history)
    def env_copy(self):
        """what has been recorded about terms so far: shapes, operands of joins, joins per loop"""
        cp = lambda d: {k: set(v) for k, v in d.items()}
        return (dict(self.shapes), cp(self.phis), cp(self.loopphis), cp(self.__dict__.get('_phiidx', {})), self.__dict__.get('_phidone', 0))

    def env_set(self, env):
        """go back to a recorded environment (sites and joins of unrelated runs share their terms)"""
        cp = lambda d: {k: set(v) for k, v in d.items()}
        self.shapes, self.phis, self.loopphis, self._phiidx, self._phidone = dict(env[0]), cp(env[1]), cp(env[2]), cp(env[3]), env[4]

    def start(self):
        """fresh state with the module frames"""
        st = self.base.clone()
        return st

    def find_fn(self, qual):
        mod, name = qual.rsplit('.', 1)
        if mod in self.modtrees:
            v = self.base.frames.get(('M', mod), {}).get(name)
            if v is not None and sole(v) is not None and sole(v)[0] == 'f':
                return sole(v)
        return None

    def find_method(self, qual):
        c, name = qual.rsplit('.', 1)
        cls = self.classes.get(c)
        if cls is None:
            return None
        r = self.find_attr(cls, name)
        if r is None:
            return None
        return sole(r[1])

    def run_call(self, fval, pos, kw, st, label='entry'):
        """call a value from a driver: (returns, raises)"""
        node = self.__dict__.setdefault('_drv', {}).get(label)
        if node is None:
            node = ast.Call(func=ast.Name(id=label, ctx=ast.Load()), args=[], keywords=[])
            node.lineno = 0
            self._drv[label] = node
            self._next += 1
            self.nid[node] = self._next
        self.fid, self.mod, self.ctx, self.curfn, self.cstack = ('M', 'driver'), 'driver', (), None, []
        self.curnode = node
        st.frames.setdefault(('M', 'driver'), {})
        out = Out()
        rets = self.call(fval, pos, kw, st, node, out)
        return rets, out.exc
