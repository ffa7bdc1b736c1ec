"""Expressions and statements of the abstract interpreter (see engine.py)."""
import ast
import time
import re
from . import lib
from .terms import T, C, Term, show, subterms, contains, rat_equal, ratfunc, poly_of, lin_key
from .engine import (Engine, V, O, Out, Exc, Fn, Cls, State, Giveup, mkv, const, unk, cval, locs, sole, tagsof, NONE, TRUE, FALSE,
                     UNB, UNB0, NOTAGS, own_nodes, new_state, ELEMWISE)

OPN = {ast.Add: 'Add', ast.Sub: 'Sub', ast.Mult: 'Mult', ast.Div: 'Div', ast.FloorDiv: 'FloorDiv', ast.Mod: 'Mod',
       ast.Pow: 'Pow', ast.MatMult: 'MatMult', ast.BitAnd: 'BitAnd', ast.BitOr: 'BitOr', ast.BitXor: 'BitXor',
       ast.LShift: 'LShift', ast.RShift: 'RShift'}
CMP = {ast.Lt: 'Lt', ast.Gt: 'Gt', ast.LtE: 'LtE', ast.GtE: 'GtE', ast.Eq: 'Eq', ast.NotEq: 'NotEq'}
FLIP = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE', 'Eq': 'Eq', 'NotEq': 'NotEq'}
PYFOLD = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
          'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b}

EXC_PARENT = {'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
              'LookupError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
              'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
              'OverflowError': 'ArithmeticError', 'FloatingPointError': 'ArithmeticError', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
              'RecursionError': 'RuntimeError', 'StopIteration': 'Exception', 'AssertionError': 'Exception', 'OSError': 'Exception',
              'MemoryError': 'Exception', 'LinAlgError': 'ValueError', 'UnicodeError': 'ValueError', 'Exception': 'BaseException',
              'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'Warning': 'Exception'}


def set_op(name, a, b):
    """members of a set operation on {constant: value} dictionaries"""
    k = {'intersection': [x for x in a if x in b], 'union': list(a) + [x for x in b if x not in a], 'difference': [x for x in a if x not in b],
         'symmetric_difference': [x for x in a if x not in b] + [x for x in b if x not in a]}[name]
    return tuple(a[x] if x in a else b[x] for x in k)


class StrOp:
    pass


def constant_array(t):
    """the items of a one-dimensional array of integers that is written with constants only, such as 1 + 2 * np.arange(2, -1, -1)"""
    n = 0
    stack, seen = [t], False
    while stack:
        x = stack.pop()
        n += 1
        if n > 24 or not isinstance(x, Term):
            return None
        if x.op == 'const':
            if type(x.args[0]) not in (int, str):
                return None
        elif x.op in ('Add', 'Sub', 'Mult', 'USub', 'FloorDiv'):
            stack += x.args
        elif x.op == 'call' and x.args[0] == 'numpy.arange':
            seen = True
            stack += [y.args[1] if y.op == 'kw' and y.args[0] in ('start', 'stop', 'step') else y for y in x.args[1:]]
        else:
            return None
    if not seen:
        return None
    from . import pit
    try:
        v = pit.Ev({}, pit.Draws('0'))(t)
    except Exception:
        return None
    if isinstance(v, pit.Arr) and len(v.shape) == 1 and len(v.data) <= 12 and all(x == int(x) for x in v.data):
        return [int(x) for x in v.data]
    return None


class Interp(Engine):
    curnode = None

    def tick(self):
        self.steps += 1
        if not self.steps & 511 and self.deadline is not None and time.time() > self.deadline:
            raise Giveup('time')
        if self.steps > self.budget:
            raise Giveup('budget')

    # ================================================================ expressions
    # ev(node, st, out) -> list of (state, V); exceptions are appended to out.exc
    def ev(self, node, st, out):
        self.tick()
        self.curnode = node
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            return [(st, unk(self.site('expr', node)))]
        return m(node, st, out)

    def evs(self, nodes, st, out):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, s, out):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev_Constant(self, n, st, out):
        if isinstance(n.value, (int, float, str, bool, bytes)) or n.value is None:
            return [(st, const(n.value))]
        return [(st, unk(T('const', repr(n.value))))]

    def ev_JoinedStr(self, n, st, out):
        parts = [x.value for x in n.values if isinstance(x, ast.FormattedValue)]
        res = []
        for s, vs in self.evs(parts, st, out):
            res.append((s, unk(T('fstr', self.nid[n], *[self.tm(s, v) for v in vs]), tagsof(*vs), 'str')))
        return res

    def ev_FormattedValue(self, n, st, out):
        return self.ev(n.value, st, out)

    def ev_Name(self, n, st, out):
        v = self.lookup(st, n.id, n)
        if v is None:
            self.emit('undefined', n, st, name=n.id)
            return [(st, unk(T('undef', n.id)))]
        if any(a[0] == 'unb' for a in v.atoms):
            rest = [a for a in v.atoms if a[0] != 'unb']
            if not rest:
                if UNB is v or any(a == ('unb', 'del') for a in v.atoms):
                    self.emit('unbound', n, st, name=n.id, sure=True)
                    out.exc.append((st, Exc('UnboundLocalError', n, implicit=True)))
                    return []
                return [(st, unk(v.term))]
            if any(a == ('unb', 'path') for a in v.atoms):
                self.emit('maybe_unbound', n, st, name=n.id)
            v = mkv(rest, v.term, v.tags)
        h = self.hooks.get('name_ok')
        if h is not None:
            h(self, n, st)
        return [(st, v)]

    def ev_Tuple(self, n, st, out):
        return self.seq(n, st, out, 'tuple')

    def ev_List(self, n, st, out):
        return self.seq(n, st, out, 'list')

    def ev_Set(self, n, st, out):
        return self.seq(n, st, out, 'set')

    def seq(self, n, st, out, kind):
        res = []
        star = any(isinstance(e, ast.Starred) for e in n.elts)
        for s, vs in self.evs([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st, out):
            if star:
                items = []
                for e, v in zip(n.elts, vs):
                    if isinstance(e, ast.Starred):
                        it = self.known_items(s, v)
                        if it is None:
                            items = None
                            break
                        items += it
                    else:
                        items.append(v)
                if items is None:
                    s = s.clone()
                    el = self.join_vals([self.elem_of(s, v, n) if isinstance(e, ast.Starred) else v for e, v in zip(n.elts, vs)], ('seq', self.nid[n]))
                    cat = None
                    if kind != 'set':
                        cat = T('cat', self.site('newlist', n), *[T('all' if isinstance(e, ast.Starred) else 'one', self.tm(s, v)) for e, v in zip(n.elts, vs)])
                    res.append((s, self.newlist(s, n, kind, None, el, tagsof(*vs), term=cat)))
                    continue
                vs = items
            s = s.clone()
            if kind == 'set':
                its = self.distinct(s, vs)
                if its is None:
                    res.append((s, self.newlist(s, n, kind, None, self.join_vals(vs, ('seq', self.nid[n])), tagsof(*vs), term=T('call', 'set', T('tuple', *[self.tm(s, x) for x in vs])))))
                    continue
                vs = its
            res.append((s, self.newlist(s, n, kind, tuple(vs), None, tagsof(*vs))))
        return res

    def distinct(self, st, items):
        """the members of a set display, or None if the number of distinct ones is not known"""
        out = []
        for v in items:
            new = True
            for w in out:
                a, b = cval(v), cval(w)
                if a[0] and b[0]:
                    r = a[1] == b[1]
                else:
                    x, y = self.tm(st, v), self.tm(st, w)
                    r = True if x is y and (self.is_num(v) or a[0]) else self.cmp_terms(st, 'Eq', x, y) if self.is_num(v) or self.is_num(w) else None
                    if r is None:
                        r = self.decide(st, T('cmp', 'Eq', x, y))
                if r is None:
                    return None
                if r:
                    new = False
                    break
            if new:
                out.append(v)
        return tuple(out)

    def const_set(self, st, v):
        """{constant: value} of a collection of known constants"""
        items = self.known_items(st, v)
        if items is None or not all(cval(i)[0] for i in items):
            return None
        return {cval(i)[1]: i for i in items}

    def newlist(self, st, n, kind, items, elem, tags=NOTAGS, term=None, length=None, sub=''):
        if items is not None and term is None:
            term = T('tuple', *[self.tm(st, x) for x in items]) if len(items) <= 40 else None
        loc = self.alloc(st, n, kind, sub, items=items, elem=elem, tags=tags, term=term, length=length)
        return mkv([('l', loc)], st.heap[loc].term, tags)

    def join_vals(self, vs, site):
        r = None
        for v in vs:
            if v is None:
                continue
            r = v if r is None else self.join_v(r, v, site, 'j')
        return r

    def ev_Dict(self, n, st, out):
        res = []
        keys = [k for k in n.keys if k is not None]
        for s, vs in self.evs(keys + list(n.values), st, out):
            s = s.clone()
            kv, vv = vs[:len(keys)], vs[len(keys):]
            attrs, opn, elem = {}, False, None
            ki = 0
            for k, v in zip(n.keys, vv):
                if k is None:
                    o = self.the_obj(s, v)
                    if o is not None and o.attrs is not None:
                        attrs.update(o.attrs)
                        opn |= o.open
                    else:
                        opn = True
                    continue
                ok, c = cval(kv[ki])
                ki += 1
                if ok:
                    attrs[c] = v
                else:
                    opn = True
                    elem = v if elem is None else self.join_v(elem, v, ('dict', self.nid[n]), 'e')
            loc = self.alloc(s, n, 'dict', attrs=attrs, open=opn, elem=elem, tags=tagsof(*vs))
            res.append((s, mkv([('l', loc)], s.heap[loc].term, tagsof(*vs))))
        return res

    def the_obj(self, st, v):
        ls = locs(v)
        if len(ls) == 1 and len(v.atoms) == 1:
            return st.heap.get(ls[0])
        return None

    def ev_Lambda(self, n, st, out):
        fn = self.fnobj(n, '<lambda>')
        return [(st, mkv([('f', fn, self.fid)], T('lambda', self.nid[n], self.ctx)))]

    def fnobj(self, node, name, cls=None):
        f = self.__dict__.setdefault('_fns', {}).get(node)
        if f is None:
            q = (self.curfn.qual + '.' if self.curfn else self.mod + '.') + name
            if cls:
                q = self.mod + '.' + cls + '.' + name
            f = Fn(node, self.mod, q, cls)
            self._fns[node] = f
        return f

    def ev_IfExp(self, n, st, out):
        res = []
        for s, b in self.cond(n.test, st, out):
            res += self.ev(n.body if b else n.orelse, s, out)
        return self.reduce_vals(res, n)

    def reduce_vals(self, res, n):
        if len(res) > 2 * self.max_states:
            groups = {}
            for s, v in res:
                groups.setdefault((s.cnt, s.dirty), []).append((s, v))
            out = []
            for g in groups.values():
                s = self.join_all([x[0] for x in g], ('rv', self.nid.get(n)))
                out.append((s, self.join_vals([x[1] for x in g], ('rv', self.nid.get(n), self.ctx))))
            self.notes.add('values merged at %s' % self.where(n))
            return out
        return res

    def ev_NamedExpr(self, n, st, out):
        res = []
        for s, v in self.ev(n.value, st, out):
            s = s.clone()
            self.setvar(s, n.target.id, v)
            res.append((s, v))
        return res

    def ev_BoolOp(self, n, st, out):
        res = []
        if all(self.is_pred(x) for x in n.values):
            for s, b in self.cond(n, st, out):
                res.append((s, const(b)))
            return self.reduce_vals(res, n)
        # value semantics of and/or
        todo = [(st, 0, None)]
        isand = isinstance(n.op, ast.And)
        while todo:
            s, i, prev = todo.pop()
            x = n.values[i]
            for s2, v in self.ev(x, s, out):
                if i == len(n.values) - 1:
                    if prev is not None and prev.tags and cval(prev) == cval(v) and cval(v)[0]:
                        v = mkv(v.atoms, v.term, v.tags | prev.tags)     # x or 0 is x when x is 0
                    res.append((s2, v))
                    continue
                for s3, b, v2 in self.truth_ref(s2, v, x):
                    if b == isand:
                        todo.append((s3, i + 1, v2))
                    else:
                        res.append((s3, v2))
        return res

    def is_pred(self, x):
        return isinstance(x, (ast.Compare,)) or (isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not)) or \
            (isinstance(x, ast.BoolOp) and all(self.is_pred(y) for y in x.values))

    def truth_ref(self, s, v, node):
        r = []
        for s2, b in self.truth(s, v, node):
            v2 = v
            if len(v.atoms) > 1:
                keep = [a for a in v.atoms if self.atom_truth(s2, a) in (b, None)]
                if keep and len(keep) < len(v.atoms):
                    v2 = mkv(keep, v.term, v.tags) if len(keep) > 1 or keep[0][0] != 'c' else const(keep[0][2], v.tags)
            r.append((s2, b, v2))
        return r

    def atom_truth(self, st, a):
        if a[0] == 'c':
            return bool(a[2])
        if a[0] == 'm' and ('u', None) in a[1].atoms:
            return None
        if a[0] in ('f', 'cls', 'x', 'bm', 'm', 'mod'):
            return True
        if a[0] == 'l':
            o = st.heap.get(a[1])
            if o is None:
                return None
            if o.kind in ('inst', 'rng', 'ext'):
                return True if o.kind != 'ext' else None
            if o.kind in ('list', 'tuple', 'set') and o.items is not None:
                return len(o.items) > 0
            if o.kind == 'dict' and not o.open:
                return len(o.attrs) > 0
        if a == ('u', 'str!'):
            return True
        return None

    def decide(self, st, t):
        """truth of a condition under the parameter partition of the current task, if there is one"""
        h = self.hooks.get('decide')
        return None if h is None else h(self, st, t)

    def truth(self, st, v, node):
        """list of (state, bool)"""
        vals = set()
        for a in v.atoms:
            vals.add(self.atom_truth(st, a))
        if vals == {True}:
            return [(st, True)]
        if vals == {False}:
            if v.tags and all(a[0] == 'c' and type(a[2]) in (int, float) for a in v.atoms):
                self.emit('zerotest', node, st, tags=v.tags)
            return [(st, False)]
        t = self.tm(st, v)
        if t.op == 'not':
            return [(s, not b) for s, b in self.truth(st, mkv([('u', None)], t.args[0], v.tags), node)]
        f = st.facts.get(('truth', t))
        if f is None and self.is_num(v):
            r = self.cmp_terms(st, 'Eq', t, C(0))
            if r is not None:
                f = not r
        o = self.the_obj(st, v)
        if f is None and o is not None and o.kind in ('list', 'tuple', 'set') and o.items is None:
            r = self.cmp_terms(st, 'Eq', self.len_of_obj(o), C(0))
            if r is not None:
                f = not r
        if f is None and t.op == 'cmp':
            f = self.cmp_terms(st, *t.args)
        if f is None:
            f = self.decide(st, t)
        if f is not None:
            return [(st, f)]
        res = []
        self.emit('branch', node, st, tags=v.tags, term=t)
        for b in (True, False):
            if not ({b, None} & vals):
                continue
            s = st.clone()
            s.facts[('truth', t)] = b
            if t.op == 'cmp' and len(t.args) == 3:
                if not self.assume_cmp(s, t.args[0], t.args[1], t.args[2], b):
                    continue
            elif self.is_num(v):
                if not self.assume_cmp(s, 'Eq', t, C(0), not b):
                    continue
            elif o is not None and o.kind in ('list', 'tuple', 'set'):
                if not self.assume_cmp(s, 'Eq', self.len_of_obj(o), C(0), not b):
                    continue
            s.ctl = s.ctl | v.tags
            s.path = (s.path, node, b, v.tags, t)
            res.append((s, b))
        return res

    def is_num(self, v):
        return bool(v.atoms) and all((a[0] == 'c' and a[1] in ('int', 'float', 'bool', 'NoneType')) or (a[0] == 'u' and a[1] in ('int', 'float', 'num')) for a in v.atoms)

    # ---- conditions: list of (state, bool)
    def cond(self, n, st, out):
        self.curnode = n
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            live, done = [st], []
            for x in n.values:
                nxt = []
                for s in live:
                    for s2, b in self.cond(x, s, out):
                        (nxt if b == isand else done).append(s2)
                live = nxt
            return [(s, isand) for s in live] + [(s, not isand) for s in done]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, not b) for s, b in self.cond(n.operand, st, out)]
        if isinstance(n, ast.Compare):
            live, done = [(st, None)], []
            res = []
            for s, l in self.ev(n.left, st, out):
                res.append((s, l, n.left))
            for op, rn in zip(n.ops, n.comparators):
                nxt = []
                for s, l, ln in res:
                    for s2, r in self.ev(rn, s, out):
                        l = self.refresh(s2, l, ln)
                        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and self.none_op(s2, CMP[type(op)], l, r, n, out):
                            continue
                        for s3, b in self.compare(s2, op, l, r, n, ln, rn):
                            if b:
                                nxt.append((s3, r, rn))
                            else:
                                done.append(s3)
                res = nxt
            return [(s, True) for s, _, _ in res] + [(s, False) for s in done]
        if isinstance(n, ast.NamedExpr):
            r = []
            for s, v in self.ev(n, st, out):
                r += self.truth(s, v, n)
            return r
        res = []
        for s, v in self.ev(n, st, out):
            for s2, b in self.truth(s, v, n):
                # refine the variable tested
                if len(v.atoms) > 1:
                    keep = [a for a in v.atoms if self.atom_truth(s2, a) in (b, None)]
                    if keep and len(keep) < len(v.atoms):
                        s2 = s2.clone()
                        self.refine(s2, n, mkv(keep, v.term, v.tags) if keep[0][0] != 'c' or len(keep) > 1 else const(keep[0][2], v.tags))
                elif sole(v) == ('u', 'bool'):
                    s2 = s2.clone()
                    self.refine(s2, n, const(b, v.tags))
                res.append((s2, b))
        return res

    def refresh(self, st, v, node):
        return v

    def refine(self, st, node, v):
        if isinstance(node, ast.Name):
            fid = self.fid
            f = st.frames.get(fid)
            if f is not None and node.id in f:
                g = dict(f)
                g[node.id] = v
                st.frames[fid] = g
        elif isinstance(node, ast.Attribute):
            if isinstance(node.value, ast.Name):
                b = self.lookup(st, node.value.id, node.value)
                if b is not None:
                    ls = locs(b)
                    if len(ls) == 1 and len(b.atoms) == 1:
                        o = st.heap.get(ls[0])
                        if o is not None and o.attrs is not None and node.attr in o.attrs:
                            a = dict(o.attrs)
                            a[node.attr] = v
                            st.heap[ls[0]] = o.rep(attrs=a)
        elif isinstance(node, ast.NamedExpr):
            self.refine(st, node.target, v)

    def restrict(self, v, keep):
        keep = [a for a in v.atoms if keep(a)]
        if len(keep) == 1 and keep[0][0] == 'c':
            return const(keep[0][2], v.tags)
        return mkv(keep, v.term, v.tags)

    def compare(self, st, op, l, r, node, ln, rn):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            return [(s, b != neg) for s, b in self.cmp_is(st, l, r, node, ln, rn)]
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            return [(s, b != neg) for s, b in self.cmp_in(st, l, r, node, ln)]
        return self.cmp_rel(st, CMP[type(op)], l, r, node, ln, rn)

    def cmp_is(self, st, l, r, node, ln, rn):
        if sole(l) == ('c', 'NoneType', None) and sole(r) != ('c', 'NoneType', None):
            l, r, ln, rn = r, l, rn, ln
        rc, rv = cval(r)
        if rc and (rv is None or isinstance(rv, bool)):
            key = ('c', type(rv).__name__, rv)
            yes = [a for a in l.atoms if a == key]
            mayb = [a for a in l.atoms if a[0] == 'u' and (a[1] in (None, 'bool') if isinstance(rv, bool) else a[1] is None)]
            no = [a for a in l.atoms if a != key and a not in mayb]
            if not mayb:
                if not no:
                    return [(st, True)]
                if not yes:
                    return [(st, False)]
            f = st.facts.get(('is', l.term, rv))
            if f is not None and mayb:
                if f is True or not yes:
                    return [(st, f)]
            self.emit('branch', node, st, tags=l.tags, term=T('is', l.term, r.term))
            res = []
            if yes or mayb:
                s = st.clone()
                if mayb:
                    s.facts[('is', l.term, rv)] = True
                self.refine(s, ln, const(rv, l.tags))
                s.ctl = s.ctl | l.tags
                s.path = (s.path, node, True, l.tags, T('is', l.term, r.term))
                res.append((s, True))
            if no or mayb:
                s = st.clone()
                if mayb:
                    s.facts[('is', l.term, rv)] = False
                self.refine(s, ln, mkv([a for a in l.atoms if a != key], l.term, l.tags))
                s.ctl = s.ctl | l.tags
                s.path = (s.path, node, False, l.tags, T('is', l.term, r.term))
                res.append((s, False))
            return res
        a, b = sole(l), sole(r)
        f = self.type_test(l, r)
        if f is not None:
            return [(st, f)]
        if a is not None and b is not None and a[0] not in ('u',) and b[0] not in ('u',):
            if a == b:
                return [(st, True)]
            return [(st, False)]
        if l.term is r.term and l is r:
            return [(st, True)]
        if not (set(l.atoms) & set(r.atoms)) and not any(x[0] == 'u' for x in l.atoms | r.atoms):
            return [(st, False)]
        if (a is not None and a[0] in ('x', 'mod', 'cls', 'f') and all(x[0] == 'u' and x[1] is not None or x[0] in ('c', 'l') for x in r.atoms)) or \
           (b is not None and b[0] in ('x', 'mod', 'cls', 'f') and all(x[0] == 'u' and x[1] is not None or x[0] in ('c', 'l') for x in l.atoms)):
            return [(st, False)]
        return self.fork(st, T('is', l.term, r.term), tagsof(l, r), node)

    def type_test(self, l, r):
        """type(x) is C for a value x that is known not to be one"""
        if r.term.op == 'type':
            l, r = r, l
        if l.term.op != 'type' or l.term not in self.type_of:
            return None
        b = sole(r)
        if b is not None and b[0] == 'x' and b[1] in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'complex', 'set'):
            return False if b[1] not in self.type_of[l.term] else None

    def fork(self, st, t, tags, node):
        f = st.facts.get(('truth', t))
        if f is None:
            f = self.decide(st, t)
        if f is not None:
            return [(st, f)]
        self.emit('branch', node, st, tags=tags, term=t)
        res = []
        for b in (True, False):
            s = st.clone()
            s.facts[('truth', t)] = b
            s.ctl = s.ctl | tags
            s.path = (s.path, node, b, tags, t)
            res.append((s, b))
        return res

    def known_items(self, st, v):
        o = self.the_obj(st, v)
        if o is not None:
            if o.kind in ('list', 'tuple', 'set') and o.items is not None:
                return list(o.items)
            if o.kind == 'dict' and not o.open:
                return [const(k) for k in o.attrs]
            if o.kind == 'iter' and o.items is not None:
                return list(o.items)
        ok, c = cval(v)
        if ok and isinstance(c, str):
            return [const(x) for x in c]
        if o is not None and o.kind == 'array':
            t = o.term
            if t not in self.constarr:
                self.constarr[t] = constant_array(t)
            if self.constarr[t] is not None:
                return [const(x) for x in self.constarr[t]]
            if 'fork_' in self.hooks:
                c = self.closed(t)
                if c is not None and len(getattr(c, 'shape', ())) == 1 and len(c.data) <= 8:
                    return [const(x) for x in c.data]
        return None

    constarr = {}

    def closed(self, t):
        """value of a term without parameters and variates, None if it has some (used when draws are enumerated)"""
        if t not in self.closedvals:
            from . import pit
            try:
                self.closedvals[t] = pit.Ev({}, None)(t)
            except Exception:
                self.closedvals[t] = None
        return self.closedvals[t]

    closedvals = {}

    def eq_const(self, a, c):
        """three-valued: does the atom equal the constant c"""
        if a[0] == 'c':
            return a[2] == c
        if a[0] == 'u':
            ty = a[1]
            if ty == 'str!':
                return False
            if ty == 'str' and not isinstance(c, str):
                return False
            if ty in ('int', 'float', 'num', 'num!') and (isinstance(c, str) or c is None):
                return False
            if ty == 'bool' and not isinstance(c, (bool, int)):
                return False
            if ty == 'odd!':
                return False
            return None
        if a[0] in ('f', 'cls', 'x', 'bm', 'mod') or a[0] == 'm' and ('u', None) not in a[1].atoms:
            return False
        return None

    def cmp_in(self, st, l, r, node, ln):
        items = self.known_items(st, r)
        rc, rcv = cval(r)
        lc, lcv = cval(l)
        if rc and isinstance(rcv, str) and lc and isinstance(lcv, str):
            return [(st, lcv in rcv)]
        if items is not None and not (rc and isinstance(rcv, str)):
            if all(cval(i)[0] for i in items):
                cs = [cval(i)[1] for i in items]
                verdict = {}
                for a in l.atoms:
                    vs = [self.eq_const(a, c) for c in cs]
                    verdict[a] = True if True in vs else None if None in vs else False
                vals = set(verdict.values())
                if vals == {True}:
                    return [(st, True)]
                if vals <= {False}:
                    return [(st, False)]
                if None not in vals:
                    res = []
                    self.emit('branch', node, st, tags=l.tags, term=T('in', l.term))
                    for b in (True, False):
                        s = st.clone()
                        self.refine(s, ln, self.restrict(l, lambda a: verdict[a] == b))
                        s.ctl |= l.tags
                        s.path = (s.path, node, b, l.tags, T('in', l.term, C(repr(cs))))
                        res.append((s, b))
                    return res
                # numeric unknown: use the comparison facts
                if self.is_num(l) and all(isinstance(c, (int, float)) for c in cs):
                    rs = [self.cmp_terms(st, 'Eq', self.tm(st, l), C(c)) for c in cs]
                    if True in rs:
                        return [(st, True)]
                    if all(x is False for x in rs):
                        return [(st, False)]
                    res = []
                    t = T('in', self.tm(st, l), C(repr(cs)))
                    f = st.facts.get(('truth', t))
                    if f is not None:
                        return [(st, f)]
                    self.emit('branch', node, st, tags=l.tags, term=t)
                    s = st.clone()
                    s.facts[('truth', t)] = True
                    s.ctl |= l.tags
                    s.path = (s.path, node, True, l.tags, t)
                    lo, hi = min(cs), max(cs)
                    if self.assume_cmp(s, 'GtE', self.tm(st, l), C(lo), True) and self.assume_cmp(s, 'LtE', self.tm(st, l), C(hi), True):
                        res.append((s, True))
                    s = st.clone()
                    s.facts[('truth', t)] = False
                    s.ctl |= l.tags
                    s.path = (s.path, node, False, l.tags, t)
                    if all(self.assume_cmp(s, 'Eq', self.tm(st, l), C(c), False) for c in cs):
                        res.append((s, False))
                    return res
                return self.fork(st, T('in', self.tm(st, l), C(repr(cs))), l.tags, node)
        o = self.the_obj(st, r)
        if o is not None and o.kind == 'dict' and not o.open and lc:
            return [(st, lcv in o.attrs)]
        return self.fork(st, T('in', self.tm(st, l), self.tm(st, r)), tagsof(l, r), node)

    def cmp_rel(self, st, op, l, r, node, ln, rn):
        lc, lv = cval(l)
        rc, rv = cval(r)
        if lc and rc:
            try:
                b = {'Lt': lambda: lv < rv, 'Gt': lambda: lv > rv, 'LtE': lambda: lv <= rv, 'GtE': lambda: lv >= rv,
                     'Eq': lambda: lv == rv, 'NotEq': lambda: lv != rv}[op]()
                return [(st, b)]
            except TypeError:
                return [(st, op == 'NotEq')]
        if lc and not rc:
            return self.cmp_rel(st, FLIP[op], r, l, node, rn, ln)
        if op in ('Eq', 'NotEq') and rc and not (isinstance(rv, (int, float)) and self.is_num(l) and not any(a[0] == 'c' for a in l.atoms)):
            verdict = {a: self.eq_const(a, rv) for a in l.atoms}
            vals = set(verdict.values())
            if vals == {True}:
                return [(st, op == 'Eq')]
            if vals == {False}:
                return [(st, op != 'Eq')]
            if None not in vals or (sole(l) and sole(l)[0] == 'u' and isinstance(rv, str)):
                f = st.facts.get(('eqc', l.term, rv))
                if f is not None:
                    return [(st, f == (op == 'Eq'))]
                self.emit('branch', node, st, tags=l.tags, term=T('cmp', 'Eq', l.term, r.term))
                res = []
                for b in (True, False):
                    s = st.clone()
                    if b:
                        self.refine(s, ln, const(rv, l.tags))
                    else:
                        self.refine(s, ln, self.restrict(l, lambda a: verdict[a] is not True))
                    s.facts[('eqc', l.term, rv)] = b
                    s.ctl |= l.tags
                    s.path = (s.path, node, b, l.tags, T('cmp', 'Eq', l.term, r.term))
                    res.append((s, b == (op == 'Eq')))
                return res
        a, b = self.tm(st, l), self.tm(st, r)
        # tuple comparison, e.g. A.shape == B.shape
        if op in ('Eq', 'NotEq') and 'tuple' in (a.op, b.op):
            same = self.same_tuple(st, a, b)
            if same is not None:
                return [(st, same == (op == 'Eq'))]
        arr = any(self.the_obj(st, x) is not None and self.the_obj(st, x).kind == 'array' for x in (l, r))
        if not arr:
            f = self.cmp_terms(st, op, a, b)
            if f is not None:
                return [(st, f)]
        else:
            f = st.facts.get(('truth', T('cmp', op, a, b)))
            if f is not None:
                return [(st, f)]
        tags = tagsof(l, r)
        t = T('cmp', op, a, b)
        f = self.decide(st, t)
        if f is not None:
            return [(st, f)]
        self.emit('branch', node, st, tags=tags, term=t)
        res = []
        for v in (True, False):
            s = st.clone()
            if arr:
                s.facts[('truth', t)] = v
            elif not self.assume_cmp(s, op, a, b, v):
                continue
            if (op == 'Eq') == v and op in ('Eq', 'NotEq') and rc and isinstance(rv, (int, float)):
                self.refine(s, ln, const(rv, l.tags))
            s.ctl = s.ctl | tags
            s.path = (s.path, node, v, tags, t)
            res.append((s, v))
        return res

    def same_tuple(self, st, a, b):
        if a.op == 'const' and b.op == 'const':
            return a.args[0] == b.args[0]
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return False
            rs = [self.same_tuple(st, x, y) for x, y in zip(a.args, b.args)]
            return False if False in rs else True if all(x is True for x in rs) else None
        if {a.op, b.op} == {'tuple', 'const'}:
            return False
        return self.cmp_terms(st, 'Eq', a, b)

    def ev_Compare(self, n, st, out):
        # array comparisons are values, not branches
        res = []
        if len(n.ops) == 1 and not isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            for s, (l, r) in self.evs([n.left, n.comparators[0]], st, out):
                arr = any(self.isarr(s, x) for x in (l, r))
                op = CMP[type(n.ops[0])]
                if op not in ('Eq', 'NotEq') and self.none_op(s, op, l, r, n, out):
                    continue
                if arr:
                    h = self.hooks.get('cmparr_')
                    f = h(self, n, s, op, self.tm(s, l), self.tm(s, r)) if h is not None else None
                    if f is not None:
                        res += f
                        continue
                    s = s.clone()
                    res.append((s, self.newarr(s, n, T('cmp', op, self.tm(s, l), self.tm(s, r)), tagsof(l, r))))
                    continue
                lc, rc = cval(l), cval(r)
                if lc[0] and rc[0] or (sole(l) and sole(r) and (sole(l)[0] == 'u' and sole(l)[1] == 'str!')):
                    res += [(s2, const(b)) for s2, b in self.cmp_rel(s, op, l, r, n, n.left, n.comparators[0])]
                    continue
                sl, sr = self.the_obj(s, l), self.the_obj(s, r)
                if sl is not None and sr is not None and sl.kind == sr.kind == 'set':
                    a, b = self.const_set(s, l), self.const_set(s, r)
                    if a is not None and b is not None:
                        res.append((s, const({'Eq': set(a) == set(b), 'NotEq': set(a) != set(b), 'Lt': set(a) < set(b), 'LtE': set(a) <= set(b), 'Gt': set(a) > set(b), 'GtE': set(a) >= set(b)}[op], tagsof(l, r))))
                        continue
                f = self.cmp_terms(s, op, self.tm(s, l), self.tm(s, r))
                if f is not None and not (lc[0] and isinstance(lc[1], str) or rc[0] and isinstance(rc[1], str)):
                    res.append((s, const(f, tagsof(l, r))))
                else:
                    res.append((s, unk(T('cmp', op, self.tm(s, l), self.tm(s, r)), tagsof(l, r), 'bool')))
            return res
        return [(s, const(b)) for s, b in self.cond(n, st, out)]

    def isarr(self, st, v):
        return any(a[0] == 'l' and st.heap.get(a[1]) is not None and st.heap[a[1]].kind == 'array' for a in v.atoms)

    def newarr(self, st, n, term, tags=NOTAGS, sub='', bases=(), typ=None):
        loc = self.alloc(st, n, 'array', sub, term=term, tags=tags, bases=tuple(bases), typ=typ)
        return mkv([('l', loc)], term, tags)

    def ev_UnaryOp(self, n, st, out):
        if isinstance(n.op, ast.Not):
            res = []
            for s, v in self.ev(n.operand, st, out):
                for s2, b in self.truth(s, v, n.operand):
                    res.append((s2, const(not b, v.tags)))
            return res
        res = []
        for s, v in self.ev(n.operand, st, out):
            ok, c = cval(v)
            op = type(n.op).__name__
            if ok and isinstance(c, (int, float)):
                r = -c if op == 'USub' else +c if op == 'UAdd' else ~c if isinstance(c, int) else None
                if r is not None:
                    res.append((s, const(r, v.tags)))
                    continue
            t = T(op, self.tm(s, v))
            if self.isarr(s, v):
                s = s.clone()
                res.append((s, self.newarr(s, n, t, v.tags)))
            else:
                res.append((s, mkv([a for a in v.atoms if a[0] == 'u'] or [('u', None)], t, v.tags)))
        return res

    def ev_BinOp(self, n, st, out):
        res = []
        for s, (l, r) in self.evs([n.left, n.right], st, out):
            if self.none_op(s, OPN[type(n.op)], l, r, n, out):
                continue
            res.append(self.binop(s, OPN[type(n.op)], l, r, n))
        return res

    def none_op(self, s, op, l, r, n, out):
        """arithmetic or ordering between None and a number, string or array: a certain TypeError"""
        nn = ('c', 'NoneType', None)
        for a, b in ((l, r), (r, l)):
            if sole(a) == nn and b.atoms and all(self.plain(s, x) for x in b.atoms):
                self.emit('none_op', n, s, op=op, tags=a.tags)
                out.exc.append((s, Exc('TypeError', n, implicit=True)))
                return True
        return False

    def plain(self, s, a):
        if a[0] == 'c':
            return True
        if a[0] == 'u':
            return a[1] in ('int', 'float', 'num', 'bool', 'str', 'str!')
        return a[0] == 'l' and s.heap.get(a[1]) is not None and s.heap[a[1]].kind in ('array', 'list', 'tuple', 'dict', 'set') and s.heap[a[1]].typ != 'object'

    def binop(self, s, op, l, r, n):
        tags = tagsof(l, r)
        lc, lv = cval(l)
        rc, rv = cval(r)
        if lc and rc and op in PYFOLD and isinstance(lv, (int, float, str)) and isinstance(rv, (int, float, str)):
            try:
                x = PYFOLD[op](lv, rv)
                if not (isinstance(x, str) and len(x) > 300):
                    return s, const(x, tags)
            except Exception:
                pass
        if lc and rc and op == 'Pow' and isinstance(lv, (int, float)) and isinstance(rv, (int, float)) and abs(rv) < 10 and lv and abs(lv) < 1e3:
            try:
                return s, const(lv ** rv, tags)
            except Exception:
                pass
        if (lc and isinstance(lv, str)) or (sole(l) and sole(l)[0] == 'u' and sole(l)[1] in ('str', 'str!')):
            if op == 'Mod':
                self.emit('strmod', n, s, left=lv if lc else None, right=r)
            return s, unk(T(op, l.term, self.tm(s, r)), tags, 'str')
        ol, orr = self.the_obj(s, l), self.the_obj(s, r)
        t = T('call', 'numpy.dot', self.tm(s, l), self.tm(s, r)) if op == 'MatMult' else T(op, self.tm(s, l), self.tm(s, r))
        if ol is not None and ol.kind in ('list', 'tuple') and (op == 'Add' and orr is not None and orr.kind == ol.kind):
            s = s.clone()
            if ol.items is not None and orr.items is not None:
                return s, self.newlist(s, n, ol.kind, ol.items + orr.items, None, tags)
            e = self.join_vals([self.elem_sum(ol, ('cat', self.nid[n])), self.elem_sum(orr, ('cat', self.nid[n]))], ('cat', self.nid[n]))
            return s, self.newlist(s, n, ol.kind, None, e, tags, term=T('concat', self.tm(s, l), self.tm(s, r)),
                                   length=T('Add', self.len_of_obj(ol), self.len_of_obj(orr)))
        if op == 'Mult' and ((ol is not None and ol.kind in ('list', 'tuple')) != (orr is not None and orr.kind in ('list', 'tuple'))) and not self.isarr(s, l) and not self.isarr(s, r):
            o, k = (ol, r) if ol is not None and ol.kind in ('list', 'tuple') else (orr, l)
            s = s.clone()
            ok, c = cval(k)
            if ok and isinstance(c, int) and o.items is not None and len(o.items) * c <= 16:
                return s, self.newlist(s, n, o.kind, o.items * c, None, tags)
            return s, self.newlist(s, n, o.kind, None, self.elem_sum(o, ('rep', self.nid[n])), tags, term=t, length=T('Mult', self.len_of_obj(o), self.tm(s, k)))
        if self.isarr(s, l) or self.isarr(s, r):
            s = s.clone()
            return s, self.newarr(s, n, t, tags)
        if t.op == 'FloorDiv' and t.args[1].op == 'const' and t.args[0].op == 'Mult' and t.args[0].args[1] is t.args[1] and t.args[0].args[0].op in ('dim', 'Mult'):
            return s, self.dimv(t.args[0].args[0], tags)
        if any(o is not None and o.kind == 'ext' and o.typ == 'poly1d' for o in (ol, orr)) and op in ('Add', 'Sub', 'Mult', 'Pow'):
            s = s.clone()
            loc = self.alloc(s, n, 'ext', term=t, tags=tags, typ='poly1d', attrs={})
            return s, mkv([('l', loc)], t, tags)
        if ol is not None and ol.kind == 'set' or orr is not None and orr.kind == 'set':
            s = s.clone()
            a, b = self.const_set(s, l), self.const_set(s, r)
            k = {'BitAnd': 'intersection', 'BitOr': 'union', 'Sub': 'difference', 'BitXor': 'symmetric_difference'}.get(op)
            if a is not None and b is not None and k:
                return s, self.newlist(s, n, 'set', set_op(k, a, b), None, tags)
            e = self.join_vals([self.elem_sum(x, ('setop', self.nid[n])) for x in (ol, orr) if x is not None], ('setop', self.nid[n]))
            return s, self.newlist(s, n, 'set', None, e, tags, term=t)
        ty = None
        tys = set()
        for v in (l, r):
            for a in v.atoms:
                tys.add(a[1] if a[0] in ('u', 'c') else None)
        if tys <= {'int', 'bool'} and op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod'):
            ty = 'int'
        elif tys <= {'int', 'float', 'bool', 'num'}:
            ty = 'float' if op != 'Pow' and ('float' in tys or op == 'Div') else 'num'
        return s, unk(t, tags, ty)

    def ev_Starred(self, n, st, out):
        return self.ev(n.value, st, out)

    # ---------------------------------------------------------------- attributes
    def ev_Attribute(self, n, st, out):
        res = []
        for s, b in self.ev(n.value, st, out):
            res += self.attr(s, b, n.attr, n, out)
        return res

    def find_attr(self, cls, name, seen=None):
        """look a name up along the class hierarchy: (owner, V) or None"""
        c = cls
        if name in c.attrs:
            return c, c.attrs[name]
        for b in c.bases:
            if b[0] == 'cls':
                r = self.find_attr(b[1], name)
                if r:
                    return r
        return None

    def has_ext_base(self, cls):
        for b in cls.bases:
            if b[0] == 'cls':
                if self.has_ext_base(b[1]):
                    return True
            elif not (b[0] == 'x' and b[1] in ('object', 'abc.ABC')):
                return True
        return False

    def attr(self, st, b, name, n, out):
        res = []
        groups = []
        vals = []
        for a in sorted(b.atoms, key=repr) if len(b.atoms) > 1 else b.atoms:
            if a[0] == 'c' and a[1] == 'NoneType' and len(b.atoms) > 1:
                # the path on which the value is None fails here; it is reported, not followed
                self.emit('attr_on_none', n, st, name=name, sure=False, tags=b.tags)
                continue
            r = self.attr_atom(st, b, a, name, n, out)
            if isinstance(r, list):
                groups += r
            elif r is not None:
                vals.append(r)
        if groups:
            return groups + [(st, v) for v in vals]
        if not vals:
            return []
        v = vals[0]
        for w in vals[1:]:
            v = self.join_v(v, w, ('attr', self.nid.get(n), self.ctx), name)
        return [(st, v)]

    def attr_atom(self, st, b, a, name, n, out):
        k = a[0]
        if 'attr_' in self.hooks:
            r = self.hooks['attr_'](self, st, b, name, n)
            if r is not None:
                return r
        if k == 'l':
            o = st.heap.get(a[1])
            if o is None:
                return unk(T('attr', b.term, name), b.tags)
            if o.kind == 'inst':
                if name in o.attrs:
                    v = o.attrs[name]
                    if any(x[0] == 'unb' for x in v.atoms):
                        rest = [x for x in v.atoms if x[0] != 'unb']
                        if not rest:
                            self.emit('noattr', n, st, cls=o.cls.name, name=name)
                            out.exc.append((st, Exc('AttributeError', n, implicit=True)))
                            return None
                        self.emit('maybe_noattr', n, st, cls=o.cls.name, name=name)
                        v = mkv(rest, v.term, v.tags)
                    self.emit('load', n, st, loc=a[1], attr=name)
                    return v
                r = self.find_attr(o.cls, name)
                if r is not None:
                    owner, v = r
                    x = sole(v)
                    if x is not None and x[0] == 'f':
                        kind = getattr(x[1], 'dkind', None)
                        if kind == 'property':
                            return self.call_fn(x, [mkv([a], b.term, b.tags)], {}, st, n, out)
                        if kind == 'static':
                            return v
                        if kind == 'class':
                            return mkv([('bm', mkv([('cls', o.cls)], T('cls', o.cls.name)), x)], T('bm', b.term, name))
                        return mkv([('bm', mkv([a], b.term, b.tags), x)], T('bm', b.term, name))
                    return v
                if name == '__class__':
                    return mkv([('cls', o.cls)], T('cls', o.cls.name))
                if name == '__dict__':
                    loc = ('D',) + (a[1],)
                    st.heap[loc] = O('dict', attrs=dict(o.attrs), open=True, term=T('dictof', b.term), bases=(a[1],))
                    return mkv([('l', loc)], T('dictof', b.term))
                if o.open or self.has_ext_base(o.cls):
                    return unk(T('attr', b.term, name), b.tags)
                self.emit('noattr', n, st, cls=o.cls.name, name=name)
                out.exc.append((st, Exc('AttributeError', n, implicit=True)))
                return None
            if o.kind == 'array':
                return self.arr_attr(st, b, a, o, name, n)
            if o.kind == 'exc':
                return unk(T('attr', o.term, name), b.tags)
            if o.kind == 'ext' and o.attrs is not None and name in o.attrs:
                return o.attrs[name]
            if o.kind == 'ext' and o.typ == 'poly1d' and name in ('c', 'coef', 'coefs', 'coeffs', 'coefficients', '_coeffs'):
                t = T('call', 'polycoef', o.term)
                self.shapes.setdefault(t, (T('dim', t, 0),))
                return self.newarr(st, n, t, o.tags, bases=(a[1],), sub='coef')
            if o.kind == 'ext' and o.typ == 'poly1d' and name in ('order', 'o'):
                return unk(T('call', 'polyorder', o.term), o.tags, 'int')
            return mkv([('m', mkv([a], b.term, b.tags), name)], T('attr', self.tm(st, b), name), o.tags)
        if k == 'x':
            d = a[1] + '.' + name
            if a[1] in ('numpy.mtrand', 'numpy.random.mtrand') and name == '_rand' or d == 'numpy.random._rand':
                return self.global_rng(st)
            if d == 'numpy.random.mtrand._rand':
                return self.global_rng(st)
            if d in ('numpy.inf', 'numpy.Inf', 'math.inf'):
                return const(float('inf'))
            if d in ('numpy.newaxis',):
                return NONE
            self.emit('extattr', n, st, name=d)
            return mkv([('x', d)], T('ext', d), b.tags)
        if k == 'mod':
            f = self.base.frames.get(('M', a[1]), {}) if ('M', a[1]) not in st.frames else st.frames[('M', a[1])]
            if name in f:
                return f[name]
            if (a[1] + '.' + name) in self.modtrees:
                return mkv([('mod', a[1] + '.' + name)], T('mod', a[1] + '.' + name))
            self.emit('noattr', n, st, cls='module ' + a[1], name=name)
            out.exc.append((st, Exc('AttributeError', n, implicit=True)))
            return None
        if k == 'cls':
            r = self.find_attr(a[1], name)
            if r is not None:
                x = sole(r[1])
                if x is not None and x[0] == 'f' and getattr(x[1], 'dkind', None) == 'class':
                    return mkv([('bm', mkv([a], b.term), x)], T('bm', b.term, name))
                return r[1]
            if name in ('__name__', '__qualname__', '__module__', '__doc__'):
                return const(a[1].name)
            return unk(T('attr', b.term, name), b.tags)
        if k == 'super':
            for c in a[1].bases:
                if c[0] == 'cls':
                    r = self.find_attr(c[1], name)
                    if r is not None:
                        x = sole(r[1])
                        if x is not None and x[0] == 'f':
                            return mkv([('bm', a[2], x)], T('bm', a[2].term, name))
                        return r[1]
            return mkv([('x', 'object.' + name)], T('ext', 'object.' + name))
        if k == 'c':
            if a[1] == 'str' or a[1] in ('int', 'float', 'bool'):
                return mkv([('m', mkv([a], b.term if len(b.atoms) == 1 else C(a[2]), b.tags), name)], T('attr', b.term, name), b.tags)
            if a[1] == 'NoneType':
                self.emit('attr_on_none', n, st, name=name, sure=len(b.atoms) == 1, tags=b.tags)
                out.exc.append((st, Exc('AttributeError', n, implicit=True)))
                return None
            return unk(T('attr', b.term, name), b.tags)
        if k in ('f', 'bm'):
            fn = a[1] if k == 'f' else a[2][1]
            if name in ('__name__', '__qualname__', '__doc__', '__module__'):
                return const(fn.qual.split('.')[-1])
            o = self.fn_attrs(st, fn)
            if name in st.heap[o].attrs:
                return st.heap[o].attrs[name]
            return unk(T('attr', b.term, name), b.tags)
        if k == 'm':
            # attribute of an unresolved member (ext objects, e.g. ax.spines)
            return mkv([('m', mkv([a], b.term, b.tags), name)], T('attr', b.term, name), b.tags)
        if k == 'u':
            if name == 'shape' and a[1] is None:
                return unk(T('attr', b.term, name), b.tags)
            return mkv([('m', mkv([a], b.term, b.tags), name)], T('attr', b.term, name), b.tags)
        return unk(T('attr', b.term, name), b.tags)

    def fn_attrs(self, st, fn):
        loc = ('F', fn.qual)
        if loc not in st.heap:
            st.heap[loc] = O('dict', attrs={}, open=True, term=T('fnattrs', fn.qual), origin='static')
        return loc

    def arr_attr(self, st, b, a, o, name, n):
        t = o.term
        if name == 'shape':
            sh = self.shape(t)
            if sh is not None:
                items = tuple(self.dimv(d, o.tags) for d in sh)
                return self.newlist(st, n, 'tuple', items, None, o.tags, sub='shape')
            return self.newlist(st, n, 'tuple', None, unk(T('dimx', t), o.tags, 'int'), o.tags, term=T('shape', t), sub='shape')
        if name == 'size':
            sh = self.shape(t)
            if sh is not None and len(sh) == 1:
                return self.dimv(sh[0], o.tags)
            if sh is not None:
                c, rest = 1, []
                for d in sh:
                    if d.op == 'const' and isinstance(d.args[0], int):
                        c *= d.args[0]
                    else:
                        rest.append(d)
                if not rest:
                    return const(c, o.tags)
                if all(d.op == 'dim' for d in rest):
                    x = rest[0]
                    for d in rest[1:]:
                        x = T('Mult', x, d)
                    return self.dimv(x if c == 1 else T('Mult', x, C(c)), o.tags)
            return unk(T('size', t), o.tags, 'int')
        if name == 'ndim':
            sh = self.shape(t)
            if sh is not None:
                return const(len(sh), o.tags)
            return unk(T('ndim', t), o.tags, 'int')
        if name == 'T':
            return self.newarr(st, n, T('call', 'numpy.transpose', t), o.tags, bases=(a[1],))
        if name in lib.VIEW_ATTRS:
            return self.newarr(st, n, T('attr', t, name), o.tags, bases=(a[1],))
        if name in ('dtype', 'itemsize', 'nbytes', 'flags', 'strides'):
            return unk(T('attr', t, name), o.tags)
        return mkv([('m', mkv([a], t, o.tags | b.tags), name)], T('attr', t, name), o.tags)

    def dimv(self, d, tags=NOTAGS):
        if d.op == 'const':
            return const(d.args[0], tags)
        return unk(d, tags, 'int')

    def global_rng(self, st):
        loc = ('G', 'numpy')
        if loc not in st.heap:
            st.heap[loc] = O('rng', term=T('rng', 'global'), origin='global')
        return mkv([('l', loc)], T('rng', 'global'))

    # ---------------------------------------------------------------- subscripts
    def ev_Slice(self, n, st, out):
        parts = [x for x in (n.lower, n.upper, n.step) if x is not None]
        res = []
        for s, vs in self.evs(parts, st, out):
            it = iter(vs)
            ts = [self.tm(s, next(it)) if x is not None else C(None) for x in (n.lower, n.upper, n.step)]
            res.append((s, mkv([('slice',)], T('slice', *ts), tagsof(*vs))))
        return res

    def ev_Subscript(self, n, st, out):
        res = []
        for s, b in self.ev(n.value, st, out):
            for s2, i in self.ev(n.slice, s, out):
                s2 = s2.clone()
                i = self.list_index(s2, i, n)
                v = self.subscript(s2, b, i, n, out)
                if v is not None:
                    res.append((s2, v))
        return res

    def list_index(self, st, i, n, sub='li'):
        """a list used as an index denotes an array of positions (when histories are enumerated: elsewhere the term of a list is good enough)"""
        if 'fork_' not in self.hooks:
            return i
        o = self.the_obj(st, i)
        if o is None or o.items is None:
            return i
        if o.kind == 'list':
            ts = [self.tm(st, x) for x in o.items]
            if all(t.op == 'const' and type(t.args[0]) in (int, bool) for t in ts):
                return self.newarr(st, n, T('bools' if ts and all(type(t.args[0]) is bool for t in ts) else 'ints', *[t.args[0] for t in ts]), i.tags, sub=sub, typ='int')
            return i
        if o.kind == 'tuple' and any(self.the_obj(st, x) is not None and self.the_obj(st, x).kind == 'list' for x in o.items):
            items = [self.list_index(st, x, n, sub + str(k)) for k, x in enumerate(o.items)]
            if any(x is not y for x, y in zip(items, o.items)):
                return self.newlist(st, n, 'tuple', items, None, i.tags, sub=sub)
        return i

    def idx_kind(self, st, i):
        """'int' / 'slice' / 'fancy' / 'tuple:...'"""
        a = sole(i)
        if a is not None:
            if a[0] == 'slice':
                return 'slice'
            if a[0] == 'c':
                return 'none' if a[2] is None else 'int' if isinstance(a[2], int) else 'key'
            if a[0] == 'u':
                return 'int' if a[1] in ('int', None, 'num') else 'key'
            if a[0] == 'x' and a[1] in ('Ellipsis', 'numpy.newaxis'):
                return 'none'
            if a[0] == 'l':
                o = st.heap.get(a[1])
                if o is not None and o.kind == 'tuple' and o.items is not None:
                    return [self.idx_kind(st, x) for x in o.items]
                return 'fancy'
        if all(x[0] in ('c', 'u') for x in i.atoms):
            return 'int'
        return 'fancy'

    def subscript(self, st, b, i, n, out, store=False):
        vals = []
        for a in b.atoms:
            v = self.sub_atom(st, b, a, i, n, out)
            if v is not None:
                vals.append(v)
        if not vals:
            return None
        v = vals[0]
        for w in vals[1:]:
            v = self.join_v(v, w, ('sub', self.nid.get(n), self.ctx), 's')
        return v

    def sub_atom(self, st, b, a, i, n, out):
        tags = tagsof(b, i)
        ok, c = cval(i)
        if a[0] == 'l':
            o = st.heap.get(a[1])
            if o is None:
                return unk(T('idx', b.term, self.tm(st, i)), tags)
            self.emit('getitem', n, st, loc=a[1], idx=i)
            if o.kind in ('list', 'tuple'):
                if sole(i) is not None and sole(i)[0] == 'slice':
                    it = self.tm(st, i)
                    ca = [x.args[0] if x.op == 'const' else '?' for x in it.args]
                    if o.items is not None and '?' not in ca:
                        return self.newlist(st, n, o.kind, o.items[slice(*ca)], None, tags)
                    return self.newlist(st, n, o.kind, None, self.elem_sum(o, ('sl', self.nid[n])), tags, term=T('idx', self.tm(st, mkv([a], b.term)), it))
                if o.items is not None:
                    if ok and isinstance(c, int):
                        if -len(o.items) <= c < len(o.items):
                            v = o.items[c]
                            return mkv(v.atoms, v.term, v.tags)
                        out.exc.append((st, Exc('IndexError', n, implicit=True)))
                        return None
                    e = self.elem_sum(o, ('it', self.nid[n]))
                    if e is None:
                        return None
                    return mkv([x for x in e.atoms if x[0] != 'unb'], T('idx', o.term, self.tm(st, i)), e.tags | i.tags)
                e = o.elem
                if e is None:
                    return unk(T('idx', o.term, self.tm(st, i)), tags)
                at = frozenset(x for x in e.atoms if x[0] != 'unb')
                return mkv(at, T('idx', o.term, self.tm(st, i)), e.tags | tags)
            if o.kind == 'dict':
                if ok and c in o.attrs:
                    v = o.attrs[c]
                    if any(x[0] == 'unb' for x in v.atoms):
                        rest = [x for x in v.atoms if x[0] != 'unb']
                        if not rest:
                            out.exc.append((st, Exc('KeyError', n, implicit=True)))
                            return None
                        v = mkv(rest, v.term, v.tags)
                    return v
                if ok and not o.open:
                    self.emit('nokey', n, st, key=c)
                    out.exc.append((st, Exc('KeyError', n, implicit=True)))
                    return None
                vs = [o.attrs[k] for k in o.attrs] + ([o.elem] if o.elem is not None else [])
                if vs:
                    v = self.join_vals(vs, ('dk', self.nid[n], self.ctx))
                    if o.open:
                        v = mkv([x for x in v.atoms if x[0] != 'unb'] + [('u', None)], T('idx', self.tm(st, b), self.tm(st, i)), v.tags | tags)
                    return v
                return unk(T('idx', o.term, self.tm(st, i)), tags)
            if o.kind == 'array':
                return self.arr_index(st, a, o, i, n, tags | o.tags)
            if o.kind == 'ext':
                return mkv([('l', self.alloc(st, n, 'ext', term=T('idx', o.term, self.tm(st, i)), tags=o.tags, bases=(a[1],)))], T('idx', o.term, self.tm(st, i)), tags)
            return unk(T('idx', o.term if o.term is not None else b.term, self.tm(st, i)), tags)
        if a[0] == 'c':
            if a[1] == 'str':
                return unk(T('idx', b.term, self.tm(st, i)), tags, 'str')
            if a[1] == 'NoneType':
                self.emit('attr_on_none', n, st, name='[]', sure=len(b.atoms) == 1, tags=b.tags)
                if len(b.atoms) == 1:
                    out.exc.append((st, Exc('TypeError', n, implicit=True)))
            return None
        return unk(T('idx', b.term, self.tm(st, i)), tags)

    def arr_index(self, st, a, o, i, n, tags):
        base = o.term
        it = self.tm(st, i)
        t = T('idx', base, it)
        k = self.idx_kind(st, i)
        ks = k if isinstance(k, list) else [k]
        sh = self.shape(base)
        nd = len(sh) if sh is not None else None
        if o.typ == 'tupleish':   # result of np.where and the like
            return self.newarr(st, n, t, tags)
        if 'fancy' in ks:
            return self.newarr(st, n, t, tags)      # advanced indexing copies
        nint = sum(1 for x in ks if x == 'int')
        if all(x == 'int' for x in ks) and (nd is None and len(ks) >= 1 and o.elem is None or nd is not None and nint >= nd):
            if nd is None and o.typ == 'arr2':
                return self.newarr(st, n, t, tags, bases=(a[1],))
            return unk(t, tags, o.typ if o.typ in ('int', 'float', 'bool') else 'num')
        return self.newarr(st, n, t, tags, bases=(a[1],))

    # ---------------------------------------------------------------- comprehensions
    def ev_ListComp(self, n, st, out):
        return self.comp(n, [n.elt], st, out, 'list')

    def ev_SetComp(self, n, st, out):
        return self.comp(n, [n.elt], st, out, 'set')

    def ev_GeneratorExp(self, n, st, out):
        return self.comp(n, [n.elt], st, out, 'list')

    def ev_DictComp(self, n, st, out):
        return self.comp(n, [n.key, n.value], st, out, 'dict')

    def comp(self, n, elts, st, out, kind):
        res = []
        g0 = n.generators[0]
        for s, itv in self.ev(g0.iter, st, out):
            items = self.known_items(s, itv)
            if len(n.generators) == 1 and items is not None and len(items) <= 12 and kind != 'dict':
                states = [(s, [])]
                ctx = self.ctx
                for k, x in enumerate(items):
                    nxt = []
                    self.ctx = ctx + (('item', k),) if k else ctx       # the objects made for the items are different ones
                    for s1, acc in states:
                        for s2 in self.assign(g0.target, x, s1.clone(), out):
                            sts = [(s2, True)]
                            for c in g0.ifs:
                                sts = [(s4, b2) for s3, b in sts if b for s4, b2 in self.cond(c, s3, out)] + [(s3, False) for s3, b in sts if not b]
                            for s3, b in sts:
                                if not b:
                                    nxt.append((s3, acc))
                                else:
                                    for s4, v in self.ev(elts[0], s3, out):
                                        nxt.append((s4, acc + [v]))
                    states = nxt
                    if len(states) > 40:
                        break
                self.ctx = ctx
                if len(states) <= 40:
                    for s1, acc in states:
                        s1 = s1.clone()
                        res.append((s1, self.newlist(s1, n, kind, tuple(acc), None, tagsof(*acc))))
                    continue
            s = s.clone()
            before = s
            cur = [s]
            filtered = False
            length = self.iter_len(s, itv)
            for gi, g in enumerate(n.generators):
                nxt = []
                for s1 in cur:
                    for s2, iv in ([(s1, itv)] if gi == 0 else self.ev(g.iter, s1, out)):
                        s2 = s2.clone()
                        e = self.elem_of(s2, iv, g)
                        if e is None:
                            continue
                        for s3 in self.assign(g.target, e, s2, out):
                            ok = [s3]
                            for c in g.ifs:
                                filtered = True
                                ok = [s4 for s5 in ok for s4, b in self.cond(c, s5, out) if b]
                            nxt += ok
                if gi > 0:
                    length = None
                cur = nxt
            vals, endst = [], [before]
            keys = []
            for s1 in cur:
                for s2, vs in self.evs(elts, s1, out):
                    vals.append(vs[-1])
                    keys.append(vs[0])
                    endst.append(s2)
            s = self.join_all(endst, ('comp', self.nid[n], self.ctx), True)
            s = s.clone()
            if s.facts is not before.facts:
                s.facts = dict(before.facts)
                s.iv = dict(before.iv)
            v = self.join_vals(vals, ('comp', self.nid[n], self.ctx))
            tags = tagsof(itv, v)
            if kind == 'dict':
                loc = self.alloc(s, n, 'dict', attrs={}, open=True, elem=v, tags=tags)
                res.append((s, mkv([('l', loc)], s.heap[loc].term, tags)))
                continue
            term = None
            if v is not None and not filtered and len(n.generators) == 1:
                ids = frozenset(self.nid.get(x, 0) for x in [g0] + list(ast.walk(g0.iter)))
                own = sorted({x.args[1] for x in subterms(v.term) if x.op == 'site' and x.args[0] == 'elem' and x.args[1] in ids}) if v.term.op != 'const' else ()
                term = T('comp', v.term, self.tm(s, itv), tuple(own) or 0)
            res.append((s, self.newlist(s, n, kind, None, v, tags, term=term, length=length if not filtered else None)))
        return self.reduce_vals(res, n)

    # iteration
    def elem_of(self, st, v, node):
        """value of a generic element of an iterable"""
        vals = []
        et = self.site('elem', node)
        for a in v.atoms:
            if a[0] == 'l':
                o = st.heap.get(a[1])
                if o is None:
                    vals.append(unk(et, v.tags))
                elif o.kind in ('list', 'tuple', 'set', 'iter'):
                    e = self.elem_sum(o, ('el', self.nid.get(node), self.ctx))
                    if e is None:
                        if o.items is None:
                            vals.append(unk(et, v.tags | o.tags))
                        continue
                    if o.typ == 'range':
                        self.range_of = getattr(self, 'range_of', {})
                        self.range_of[et] = o.attrs
                        vals.append(unk(et, e.tags | o.tags, 'int'))
                        self.assume_range(st, et, o)
                    elif all(x[0] == 'c' for x in e.atoms) and o.items is not None:
                        vals.append(mkv(e.atoms, et, e.tags | o.tags))
                    else:
                        vals.append(mkv([x for x in e.atoms if x[0] != 'unb'], et if not any(x[0] == 'l' for x in e.atoms) else e.term, e.tags | o.tags))
                elif o.kind == 'dict':
                    ks = [const(k) for k in o.attrs]
                    if ks and not o.open:
                        vals.append(mkv(frozenset().union(*[k.atoms for k in ks]), et, o.tags))
                    else:
                        vals.append(unk(et, o.tags))
                elif o.kind == 'array':
                    sh = self.shape(o.term)
                    if sh is not None and len(sh) >= 2 or o.typ == 'arr2':
                        vals.append(self.newarr(st, node, T('idx', o.term, et), o.tags, sub='row', bases=(a[1],)))
                    else:
                        vals.append(unk(T('idx', o.term, et), o.tags, o.typ if o.typ in ('int', 'float') else 'num'))
                else:
                    vals.append(unk(et, v.tags | o.tags))
            elif a[0] == 'c' and a[1] == 'str':
                vals.append(unk(et, v.tags, 'str'))
            elif a[0] == 'c' and a[2] is None:
                continue
            else:
                vals.append(unk(et, v.tags))
        r = self.join_vals(vals, ('elem', self.nid.get(node), self.ctx))
        return r

    def assume_range(self, st, et, o):
        a = o.attrs
        start, stop, step = a['start'], a['stop'], a['step']
        self.isint_terms = self.isint_terms | {et}
        if step.op == 'const' and isinstance(step.args[0], int):
            for k in list(st.iv):
                if any(contains(x, et) for m, _ in k for x, _ in m):
                    del st.iv[k]
            if step.args[0] > 0:
                self.assume_cmp(st, 'GtE', et, start, True)
                self.assume_cmp(st, 'Lt', et, stop, True)
            else:
                self.assume_cmp(st, 'LtE', et, start, True)
                self.assume_cmp(st, 'Gt', et, stop, True)

    def iter_len(self, st, v):
        o = self.the_obj(st, v)
        if o is not None:
            if o.kind in ('list', 'tuple', 'iter', 'set'):
                return self.len_of_obj(o)
            if o.kind == 'dict' and not o.open:
                return C(len(o.attrs))
            if o.kind == 'array':
                sh = self.shape(o.term)
                if sh:
                    return sh[0]
                return T('len', o.term)
        return T('len', v.term)

    # ---------------------------------------------------------------- shapes
    def shape(self, t, depth=0, seen=frozenset()):
        """tuple of dimension terms or None"""
        if t in self.shapes:
            return self.shapes[t]
        if t in seen:
            return 'rec'
        if depth > 60:
            return None
        r = self._shape(t, depth + 1, seen | {t})
        if r != 'rec' and not seen and t.op != 'phi':
            self.shapes[t] = r
        return r

    def _shape(self, t, d, seen):
        op, A = t.op, t.args
        sh = lambda x: self.shape(x, d, seen)
        if op == 'phi':
            r = 'rec'
            for o in list(self.phis.get(t, ())):
                s = sh(o)
                if s == 'rec':
                    continue
                if s is None:
                    return None
                if r == 'rec':
                    r = s
                elif len(r) != len(s):
                    return None
                else:
                    r = tuple(x if x is y or rat_equal(x, y) else T('dim', t, i) for i, (x, y) in enumerate(zip(r, s)))
            return r
        if op == 'const':
            return () if isinstance(A[0], (int, float, bool)) or isinstance(A[0], str) and A[0].endswith('j') else None
        if op == 'ext':
            return () if A[0] in ('numpy.pi', 'numpy.e', 'math.pi', 'math.e', 'numpy.inf', 'numpy.nan', 'math.inf', 'math.nan') else None
        if op == 'cat':
            n = C(0)
            for x in A[1:]:
                if x.op == 'one':
                    n = T('Add', n, C(1))
                else:
                    u = sh(x.args[0])
                    if u in (None, 'rec') or not u:
                        return u or None
                    n = T('Add', n, u[0])
            return (n,)
        if op in ('len', 'dim', 'size', 'ndim'):
            return ()
        if op == 'tuple':
            if not A:
                return (C(0),)
            s = sh(A[0])
            if s is None or s == 'rec':
                return s
            return (C(len(A)),) + tuple(s)
        if op == 'concat':
            s, u = sh(A[0]), sh(A[1])
            if s in (None, 'rec') or u in (None, 'rec') or not s or not u:
                return None if None in (s, u) else 'rec'
            return (T('Add', s[0], u[0]),) + tuple(s[1:])
        if op in ('upd', 'mut', 'inplace'):
            return sh(A[0])
        if op in ('USub', 'UAdd', 'Invert', 'not'):
            return sh(A[0])
        if op == 'cmp':
            return self.bcast([sh(A[1]), sh(A[2])])
        if op in ('Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'Mod', 'Pow', 'BitAnd', 'BitOr', 'BitXor'):
            return self.bcast([sh(A[0]), sh(A[1])])
        if op == 'attr' and A[1] in ('real', 'imag'):
            return sh(A[0])
        if op == 'comp':
            s, u = sh(A[0]), sh(A[1])
            if u in (None, 'rec') or not u:
                return u
            if s in (None, 'rec'):
                return s
            return (u[0],) + tuple(s)
        if op == 'idx' and A[0].op == 'call' and A[1].op == 'const':
            f, k = A[0].args[0], A[1].args[0]
            P = self.post(A[0])
            tail = f.split('.')[-1]
            if tail in ('eigh', 'eig', 'eigh_tridiagonal', 'eig_banded', 'qr', 'svd', 'slogdet', 'unique', 'where', 'nonzero', 'modf', 'divmod', 'frexp') and P:
                u = sh(P[0])
                if tail == 'slogdet':
                    return () if u and u != 'rec' and len(u) == 2 else None
                if tail in ('where', 'nonzero'):
                    return (T('dim', t, 0),)
                if u in (None, 'rec'):
                    return u
                if tail in ('eigh', 'eig') and len(u) == 2:
                    return (u[0],) if k == 0 else (u[0], u[0])
                if tail == 'eigh_tridiagonal':
                    return (u[0],) if k == 0 else (u[0], u[0])
                if tail == 'qr' and len(u) == 2:
                    m = self.kwt(A[0], 'mode')
                    if f.startswith('numpy') or m is not None and m.op == 'const' and m.args[0] == 'economic':
                        return (u[0], u[1]) if k == 0 else (u[1], u[1])
                    return (u[0], u[0]) if k == 0 else (u[0], u[1])
                return None
        if op == 'idx':
            return self.shape_idx(sh(A[0]), A[1], sh)
        if op in ('bools', 'ints'):
            return (C(len(A)),)
        if op == 'uvec':
            return (C(A[1]),)
        if op == 'draw':
            return self.shape_draw(t, sh)
        if op == 'call':
            return self.shape_call(t, sh)
        if op == 'listbuilt':
            return (A[0],) + (() if len(A) < 2 else tuple(sh(A[1]) or ()))
        if op == 'site' and A[0] == 'elem':
            r = getattr(self, 'range_of', {}).get(t)
            if r is not None:
                return ()
        return None

    def bcast(self, shs):
        if any(s is None for s in shs):
            return None
        shs = [s for s in shs if s != 'rec']
        if not shs:
            return 'rec'
        n = max(len(s) for s in shs)
        r = []
        for i in range(1, n + 1):
            ds = [s[-i] for s in shs if len(s) >= i]
            ds = [x for x in ds if not (x.op == 'const' and x.args[0] == 1)] or ds[:1]
            r.append(ds[0])
            # incompatible unknown dimensions: trust the first (numpy would raise otherwise)
        return tuple(reversed(r))

    def shape_idx(self, s, i, sh):
        if s is None or s == 'rec':
            return s
        idx = list(i.args) if i.op == 'tuple' else [i]
        if i.op == 'call' and i.args[0] == 'numpy.ix_':
            r = []
            for x in i.args[1:]:
                u = sh(x)
                if u in (None, 'rec') or len(u) != 1:
                    return None if u != 'rec' else 'rec'
                r.append(u[0])
            return tuple(r) + tuple(s[len(r):])
        r, k = [], 0
        fancy = None
        for x in idx:
            if x.op == 'const' and x.args[0] is None:
                r.append(C(1))
                continue
            if x.op == 'ext' and x.args[0] in ('numpy.newaxis',):
                r.append(C(1))
                continue
            if k >= len(s):
                return None
            if x.op == 'slice':
                r.append(self.slice_len(s[k], x))
                k += 1
                continue
            u = sh(x)
            if u == 'rec':
                return 'rec'
            if u is None:
                return None
            if x.op == 'cmp' or x.op in ('Invert', 'not', 'BitAnd', 'BitOr', 'bools') or self.boolterm(x):
                c = self.closed(x) if 'fork_' in self.hooks else None
                if c is None and self.hooks.get('sample_') is not None:
                    c = self.hooks['sample_'](x)
                if c is not None and len(getattr(c, 'shape', ())) == 1 and len(u) == 1:
                    if fancy is None:
                        fancy = 1
                        r.append(C(sum(map(bool, c.data))))
                    k += 1
                    continue
                if fancy is None:
                    fancy = 1
                    r.append(T('dim', T('idx', T('mask', x), C(0)), 0))
                k += len(u) if len(u) else 1
                continue
            if len(u) == 0:
                k += 1
                continue
            if fancy is None:
                fancy = 1
                r.extend(u)
            k += 1
        return tuple(r) + tuple(s[k:])

    def boolterm(self, t, seen=()):
        while t.op in ('upd', 'mut', 'inplace'):
            t = t.args[0]
        if t.op == 'phi':
            if t in seen or len(seen) > 8:
                return False
            return any(self.boolterm(o, seen + (t,)) for o in list(self.phis.get(t, ()))[:4] if o.op != 'phi')
        if t.op == 'call' and t.args[0] in ('numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty'):
            return any(isinstance(x, Term) and x.op == 'ext' and x.args[0] in ('bool', 'numpy.bool_') for y in t.args[1:] if isinstance(y, Term) for x in [y] + list(y.args))
        if t.op == 'call' and t.args[0].startswith('numpy.') and t.args[0][6:] in ('isin', 'in1d', 'isclose', 'logical_not', 'logical_and', 'logical_or', 'greater', 'less', 'isnan', 'isfinite', 'greater_equal', 'less_equal', 'equal', 'not_equal'):
            return True
        return t.op == 'cmp'

    def slice_len(self, n, sl):
        lo, hi, step = sl.args
        st = step.args[0] if step.op == 'const' else '?'
        lo0 = lo.op == 'const' and lo.args[0] in (None, 0)
        if st in (None, 1):
            if hi.op == 'const' and hi.args[0] is None:
                if lo0:
                    return n
                if lo.op == 'const' and lo.args[0] < 0:
                    return C(-lo.args[0])
                return T('Sub', n, lo)
            if hi.op == 'const' and isinstance(hi.args[0], int) and hi.args[0] < 0:
                m = T('Add', n, hi)
                return m if lo0 else T('Sub', m, lo)
            # a[:k] may be shorter than k; it is taken to be k (k within bounds)
            return hi if lo0 else T('Sub', hi, lo)
        if isinstance(st, int) and st > 1 and (lo0 or lo.op == 'const' and isinstance(lo.args[0], int) and lo.args[0] >= 0):
            m = self.slice_len(n, T('slice', lo, hi, C(None)))
            return T('FloorDiv', T('Add', m, C(st - 1)), C(st))
        if st == -1 and lo.op == 'const' and lo.args[0] is None and hi.op == 'const' and hi.args[0] is None:
            return n
        return T('dim', T('slicelen', n, sl), 0)

    def dims_of_arg(self, a, sh):
        """shape denoted by a size argument (int or tuple)"""
        if a.op == 'tuple':
            return tuple(a.args)
        if a.op == 'const' and a.args[0] is None:
            return ()
        if a.op == 'shape':
            return sh(a.args[0])
        u = sh(a)
        if u in (None, 'rec'):
            if a.op in ('param', 'name', 'Add', 'Sub', 'Mult', 'FloorDiv', 'call', 'attr', 'idx', 'site', 'phi', 'dim', 'len'):
                return (a,)
            return None
        if len(u) == 0:
            return (a,)
        if len(u) == 1:
            return None
        return None

    def kwt(self, t, name):
        for a in t.args:
            if isinstance(a, Term) and a.op == 'kw' and a.args[0] == name:
                return a.args[1]
        return None

    def post(self, t):
        return [a for a in t.args[1:] if isinstance(a, Term) and a.op != 'kw']

    def shape_draw(self, t, sh):
        # ('draw', method, sitekey..., argsterm)
        m = t.args[0]
        args = t.args[-1]
        pos = [a for a in args.args if a.op != 'kw']
        kw = {a.args[0]: a.args[1] for a in args.args if a.op == 'kw'}
        if m in ('rand', 'randn'):
            return tuple(pos)
        if m == 'permutation':
            u = sh(pos[0])
            return (pos[0],) if u == () or u is None else u
        npar = {'choice': 1, 'randint': 2, 'integers': 2, 'normal': 2, 'uniform': 2, 'beta': 2, 'gamma': 2, 'standard_gamma': 1, 'chisquare': 1,
                'binomial': 2, 'poisson': 1, 'exponential': 1, 'multinomial': 2, 'random_sample': 0, 'random': 0, 'standard_normal': 0, 'laplace': 2,
                'vonmises': 2, 'multivariate_normal': 2, 'dirichlet': 1}.get(m)
        if npar is None:
            return None
        size = kw.get('size')
        if size is None and len(pos) > npar:
            size = pos[npar]
        if size is None or (size.op == 'const' and size.args[0] is None):
            if m in ('multinomial', 'multivariate_normal', 'dirichlet'):
                return None
            us = [sh(p) for p in pos[:npar]] if m not in ('choice',) else []
            if any(u is None for u in us):
                return None
            return self.bcast(us + [()]) if us else ()
        r = self.dims_of_arg(size, sh)
        if r is not None and m == 'multinomial' and len(pos) > 1:
            u = sh(pos[1])
            return None if not u or u == 'rec' else tuple(r) + tuple(u)
        return r

    def shape_call(self, t, sh):
        f = t.args[0]
        P = self.post(t)
        g = f[6:] if f.startswith('numpy.') else f
        if f == 'identity':
            return sh(P[0])
        if f.startswith('meth:') and P:
            u = sh(P[0])
            if f in ('meth:toarray', 'meth:todense', 'meth:conj', 'meth:copy', 'meth:conjugate', 'meth:astype', 'meth:tocsr', 'meth:tocsc', 'meth:tolil', 'meth:asformat'):
                return u
            if f in ('meth:dot', 'meth:__matmul__') and len(P) > 1:
                v = sh(P[1])
                if u == 'rec' or v == 'rec':
                    return 'rec'
                if not u or not v or len(u) != 2 or len(v) not in (1, 2):
                    return None
                return u[:1] + tuple(v[1:])
            if f == 'meth:transpose':
                return u if u in (None, 'rec') else tuple(reversed(u))
            return None
        if f in ('scipy.sparse.block_diag', 'scipy.linalg.block_diag') and P:
            return self.shape_blocks([P[0]] if f.startswith('scipy.sparse') else [T('tuple', *P)], sh)
        if f in ('scipy.sparse.diags', 'scipy.sparse.diags_array') and P:
            # square matrix large enough for its longest diagonal
            if len(P) > 1 and P[0].op == 'tuple' and P[1].op == 'tuple':
                for x, k in zip(P[0].args, P[1].args):
                    u = sh(x)
                    if u and u != 'rec' and len(u) == 1 and k.op == 'const' and isinstance(k.args[0], int):
                        n = T('Add', u[0], C(abs(k.args[0])))
                        return (n, n)
            return None
        if f.startswith('user:') and f.rsplit('.', 1)[-1] in ('eval', 'user:eval_L') and 1 <= len(P) <= 2:
            # a kernel function: one row per item of the first argument, one column per item of the last
            u, v = sh(P[0]), sh(P[-1])
            if 'rec' in (u, v) or not u or not v:
                return 'rec' if 'rec' in (u, v) else None
            return (u[0], v[0])
        if f.startswith('numpy.') or f.startswith('scipy.'):
            if g in ('zeros', 'ones', 'empty') and P or g == 'full' and P:
                return self.dims_of_arg(P[0], sh)
            if g in ('zeros', 'ones', 'empty', 'full'):
                k = self.kwt(t, 'shape')
                return self.dims_of_arg(k, sh) if k is not None else None
            if g in ('zeros_like', 'ones_like', 'empty_like', 'full_like', 'sort', 'cumsum', 'cumprod', 'flip', 'argsort', 'conj', 'nan_to_num', 'clip', 'round', 'tril', 'triu') and P:
                if g in ('cumsum', 'cumprod') and self.kwt(t, 'axis') is None:
                    u = sh(P[0])
                    return u if u in (None, 'rec') or len(u) == 1 else None
                return sh(P[0])
            if g in ('array', 'asarray', 'ascontiguousarray', 'copy', 'asanyarray', 'atleast_1d', 'real', 'imag', 'maximum.accumulate') and P:
                u = sh(P[0])
                if g == 'atleast_1d' and u == ():
                    return (C(1),)
                return u
            if f in ELEMWISE and P:
                if g == 'where':
                    if len(P) == 1:
                        return None
                    return self.bcast([sh(x) for x in P])
                return self.bcast([sh(x) for x in P[:2 if g in lib.UFUNC2 else 1]])
            if g == 'arange':
                k = self.kwt(t, 'step')
                if k is not None:
                    P = ([C(0)] + P if len(P) == 1 else P[:2]) + [k]
                if any(x.op == 'const' and isinstance(x.args[0], float) for x in P):
                    return (T('dim', t, 0),)
                if len(P) == 1:
                    return (P[0],)
                if len(P) == 2 or len(P) == 3 and P[2] is C(1):
                    return (T('Sub', P[1], P[0]),)
                if len(P) == 3 and P[2].op == 'const' and isinstance(P[2].args[0], int) and P[2].args[0] > 1:
                    return (T('FloorDiv', T('Add', T('Sub', P[1], P[0]), C(P[2].args[0] - 1)), P[2]),)
                if len(P) == 3 and P[2].op == 'const' and P[2].args[0] == -1:
                    return (T('Sub', P[0], P[1]),)
                return None
            if g == 'linspace':
                k = self.kwt(t, 'num') or (P[2] if len(P) > 2 else C(50))
                return (k,)
            if g in ('eye', 'identity'):
                return (P[0], P[1] if len(P) > 1 and g == 'eye' else P[0])
            if g in ('transpose',) and P:
                u = sh(P[0])
                return u if u in (None, 'rec') else tuple(reversed(u))
            if g == 'dot' and len(P) >= 2:
                u, v = sh(P[0]), sh(P[1])
                if u == 'rec' or v == 'rec':
                    return 'rec'
                if u is None or v is None:
                    return None
                if not u or not v:
                    return u or v
                if len(v) == 1:
                    return u[:-1]
                return u[:-1] + v[:-2] + v[-1:]
            if g == 'outer' and len(P) == 2:
                u, v = sh(P[0]), sh(P[1])
                return None if not u or not v or 'rec' in (u, v) else (u[0], v[0])
            if g == 'delete' and len(P) >= 2:
                u, v = sh(P[0]), sh(P[1])
                if u == 'rec' or v == 'rec':
                    return 'rec'
                if u is None or v is None or len(u) != 1:
                    return None
                return (T('Sub', u[0], C(1) if v == () else v[0]),)
            if g in ('append',) and len(P) >= 2 and self.kwt(t, 'axis') is None:
                u, v = sh(P[0]), sh(P[1])
                if u in (None, 'rec') or v in (None, 'rec') or len(u) != 1 or len(v) > 1:
                    return 'rec' if 'rec' in (u, v) else None
                return (T('Add', u[0], C(1) if v == () else v[0]),)
            if g in ('insert',) and len(P) >= 3 and self.kwt(t, 'axis') is None:
                u, v = sh(P[0]), sh(P[2])
                if u in (None, 'rec') or v in (None, 'rec') or len(u) != 1:
                    return 'rec' if 'rec' in (u, v) else None
                return (T('Add', u[0], C(1) if v == () else v[0]),)
            if g in ('concatenate', 'hstack', 'r_') and P and P[0].op == 'tuple':
                us = [sh(x) for x in P[0].args]
                if any(u is None for u in us):
                    return None
                us = [u for u in us if u != 'rec']
                if not us:
                    return 'rec'
                if all(len(u) == 1 or (g == 'hstack' and len(u) == 0) for u in us):
                    n = C(0)
                    for u in us:
                        n = T('Add', n, u[0] if u else C(1))
                    return (n,)
                if g == 'hstack' and all(len(u) == 2 for u in us):
                    n = us[0][1]
                    for u in us[1:]:
                        n = T('Add', n, u[1])
                    return (us[0][0], n)
                return None
            if g in ('vstack', 'block', 'bmat') and P and P[0].op == 'tuple' and g == 'vstack':
                us = [sh(x) for x in P[0].args]
                if any(u in (None, 'rec') for u in us):
                    return None
                n, m = C(0), None
                for u in us:
                    n = T('Add', n, C(1) if len(u) == 1 else u[0])
                    m = u[-1]
                return (n, m)
            if g in ('block', 'bmat') and P and P[0].op == 'tuple' and all(x.op == 'tuple' for x in P[0].args):
                rows = [[sh(y) for y in x.args] for x in P[0].args]
                if any(u in (None, 'rec') or len(u) != 2 for r in rows for u in r):
                    return None
                n, m = C(0), C(0)
                for r in rows:
                    n = T('Add', n, r[0][0])
                for u in rows[0]:
                    m = T('Add', m, u[1])
                return (n, m)
            if g == 'column_stack' and P and P[0].op == 'tuple':
                us = [sh(x) for x in P[0].args]
                if any(u in (None, 'rec') for u in us):
                    return None
                return (us[0][0], C(len(us))) if all(len(u) == 1 for u in us) else None
            if g in ('flatnonzero',):
                return (T('dim', t, 0),)
            if g in ('setdiff1d', 'unique', 'intersect1d', 'union1d'):
                if g == 'setdiff1d' and len(P) == 2 and self.subset_of(P[1], P[0]):
                    u, v = sh(P[0]), sh(P[1])
                    if u and v and 'rec' not in (u, v):
                        return (T('Sub', u[0], v[0]),)
                return (T('dim', t, 0),)
            if g in ('diag', 'diagonal') and P:
                u = sh(P[0])
                if u in (None, 'rec'):
                    return u
                if len(u) == 2:
                    return (u[0],)
                if len(u) == 1:
                    k = self.kwt(t, 'k') or (P[1] if len(P) > 1 else C(0))
                    if k.op == 'const' and isinstance(k.args[0], int):
                        n = T('Add', u[0], C(abs(k.args[0]))) if k.args[0] else u[0]
                        return (n, n)
                return None
            if g in ('linalg.eigvalsh', 'linalg.eigvals', 'linalg.eigvalsh_tridiagonal', 'linalg.svdvals', 'scipy.linalg.eigvalsh') or f.endswith(('.eigvalsh', '.eigvals', '.eigvalsh_tridiagonal', '.eigvals_banded')):
                u = sh(P[0])
                if f.endswith('eigvals_banded'):
                    return u if u in (None, 'rec') else (u[-1],)
                return u if u in (None, 'rec') else (u[0],)
            if f.endswith('.eigh') or f.endswith('.eig') or f.endswith('.eigh_tridiagonal'):
                return None
            if g in ('linalg.inv', 'linalg.cholesky', 'linalg.pinv', 'scipy.linalg.cholesky') or f.endswith(('linalg.inv', 'linalg.sqrtm')):
                return sh(P[0])
            if f.endswith('.solve') or f.endswith('solve_triangular'):
                return sh(P[1]) if len(P) > 1 else None
            if f in lib.SCALAR_FUNCS:
                return ()
            if f in lib.REDUCTIONS or g in ('einsum~',):
                ax = self.kwt(t, 'axis') or (P[1] if len(P) > 1 and g not in ('linalg.norm',) else None)
                u = sh(P[0])
                kd = self.kwt(t, 'keepdims')
                if ax is None or ax.op == 'const' and ax.args[0] is None:
                    return ()
                if u in (None, 'rec') or ax.op != 'const' or not isinstance(ax.args[0], int):
                    return u if u == 'rec' else None
                k = ax.args[0] % len(u) if u else 0
                if kd is not None:
                    return u[:k] + (C(1),) + u[k + 1:]
                return u[:k] + u[k + 1:]
            if g in ('repeat', 'tile') and len(P) >= 2 and self.kwt(t, 'axis') is None:
                u, v = sh(P[0]), sh(P[1])
                if u == () and v == ():
                    return (P[1],)
                if u and len(u) == 1 and v == () and u != 'rec':
                    return (T('Mult', u[0], P[1]),)
                return None
            if g == 'reshape' and len(P) >= 2:
                dims = P[1].args if P[1].op == 'tuple' else P[1:]
                if any(x.op == 'const' and x.args[0] == -1 for x in dims):
                    u = sh(P[0])
                    if u in (None, 'rec'):
                        return None
                    tot = C(1)
                    for x in u:
                        tot = T('Mult', tot, x)
                    for x in dims:
                        if not (x.op == 'const' and x.args[0] == -1):
                            tot = T('Div', tot, x)
                    return tuple(tot if x.op == 'const' and x.args[0] == -1 else x for x in dims)
                return tuple(dims)
            if g in ('ravel', 'flatten') and P:
                u = sh(P[0])
                if u in (None, 'rec'):
                    return u
                n = C(1)
                for x in u:
                    n = T('Mult', n, x)
                return (u[0],) if len(u) == 1 else (n,)
            if g in ('take',) and len(P) == 2:
                u = sh(P[1])
                return u
            if g == 'squeeze':
                u = sh(P[0])
                if u in (None, 'rec'):
                    return u
                return tuple(x for x in u if not (x.op == 'const' and x.args[0] == 1))
            if g == 'fromiter':
                return sh(P[0])
            if g == 'angle':
                return sh(P[0])
            if g == 'meshgrid':
                return None
        if f == 'sorted' or f == 'reversed':
            return sh(P[0])
        if f == 'polycoef':
            return (T('dim', t, 0),)
        if f in ('range',):
            return (self.range_len(*P),)
        if f == 'int' or f == 'float' or f == 'len' or f == 'abs':
            return () if f != 'abs' else sh(P[0])
        return None

    def shape_blocks(self, P, sh):
        """shape of a block diagonal matrix"""
        b = P[0]
        rows, cols = C(0), C(0)
        if b.op in ('tuple', 'cat'):
            parts = [(x, False) for x in b.args] if b.op == 'tuple' else [(x.args[0], x.op == 'all') for x in b.args[1:]]
        else:
            parts = [(b, True)]
        for x, many in parts:
            u = sh(x)
            if u in (None, 'rec'):
                return u
            k = C(1)
            if many:
                if not u:
                    return None
                k, u = u[0], u[1:]
            u = (C(1),) * (2 - len(u)) + tuple(u)
            if len(u) != 2:
                return None
            rows, cols = T('Add', rows, T('Mult', k, u[0])), T('Add', cols, T('Mult', k, u[1]))
        return (rows, cols)

    def subset_of(self, a, b):
        """is the content a known to be a subset of b (ground set)"""
        return False

    def range_len(self, *P):
        if len(P) == 1:
            return P[0]
        if len(P) == 2 or (len(P) == 3 and P[2].op == 'const' and P[2].args[0] == 1):
            return T('Sub', P[1], P[0]) if not (P[0].op == 'const' and P[0].args[0] == 0) else P[1]
        if P[2].op == 'const' and P[2].args[0] == -1:
            return T('Sub', P[0], P[1])
        return T('dim', T('call', 'range', *P), 0)
