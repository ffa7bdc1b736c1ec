"""Partitions of parameter domains: a call is analysed under assumptions on its scalar parameters (facts on the argument
terms), and the exits that remain feasible are judged.

task: ('dom', what, name, ctor spec, history, assumptions)   what: 'fn' (name is a function, history = its spec) or 'obj'
assumptions: ((op, expr, expr), ...) with op in Lt/Gt/LtE/GtE/Eq/NotEq and expr a small arithmetic expression over parameter names.
Two optional fields follow: abstract values of parameters ((name, value), ...) and predicates ((predicate, parameter), ...) of absval."""
import ast
import re
from fractions import Fraction
from .terms import T, C, subterms, show, Term
from .sweep import label
from .engine import mkv
from .drive import Run
from . import absval

NAMES = {ast.Add: 'Add', ast.Sub: 'Sub', ast.Mult: 'Mult', ast.Div: 'Div'}


def term(expr):
    if not isinstance(expr, str):
        return C(expr)
    if expr.startswith('dim:'):
        return T('dim', expr[4:])
    if re.fullmatch(r's\d\.\w+', expr):
        return T('param', expr)     # parameter of a later call of the history

    def go(n):
        if isinstance(n, ast.Expression):
            return go(n.body)
        if isinstance(n, ast.Name):
            return T('param', n.id)
        if isinstance(n, ast.Constant):
            return C(n.value)
        if isinstance(n, ast.UnaryOp):
            return T('USub', go(n.operand)) if not isinstance(n.operand, ast.Constant) else C(-n.operand.value)
        return T(NAMES[type(n.op)], go(n.left), go(n.right))
    return go(ast.parse(expr, mode='eval'))


def dom_label(task):
    _, what, name, cspec, hist, assume = task[:6]
    s = label((what, name, hist) if what == 'fn' else ('obj', name, cspec, hist))
    o = {'Lt': '<', 'Gt': '>', 'LtE': '<=', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}
    d = ['%s %s %s' % (a, o[op], b) for op, a, b in assume]
    if len(task) > 6:
        d += ['%s in %s' % (n, absval.show(v)) for n, v in task[6]] + ['%s(%s)' % x for x in task[7]]
    return s + (' for ' + ', '.join(d) if d else '')


def dom_of(task):
    """(Dom, names of the partitioned parameters)"""
    names = names_of(task[5])
    if len(task) > 6:
        preds = [getattr(absval, f)(a) for f, a in task[7]]
        d = absval.Dom(task[6], preds, {a for _, a in task[7]})
        return d, names | d.names
    return None, names


def names_of(assume):
    out = set()
    for _, a, b in assume:
        for x in (a, b):
            if isinstance(x, str) and ':' not in x:
                out |= {n.id for n in ast.walk(ast.parse(x, mode='eval')) if isinstance(n, ast.Name)}
    return out


def run_dom(r, task):
    """[Run] under the assumptions, construction included: a constructor that raises counts as an exit of the call"""
    dom, _ = dom_of(task)
    if dom is not None:
        r.p.hooks['decide'] = lambda p, st, t: dom.decide(p, st, t)
    try:
        return run_dom1(r, task)
    finally:
        r.p.hooks.pop('decide', None)


def run_dom1(r, task):
    _, what, name, cspec, hist, assume = task[:6]
    p, d = r.p, r.d
    st = r.start()
    p.isint_terms = frozenset()
    specs = [dict(hist)] if what == 'fn' else [dict(cspec)] + [dict(s) for _, s in hist]
    for sp in specs:
        for k, v in sp.items():
            if v == 'int':
                p.isint_terms = p.isint_terms | {T('param', k)}
    for op, a, b in assume:
        if not p.assume_cmp(st, op, term(a), term(b), True):
            return []
    lb = dom_label(task)
    if what == 'fn':
        atom = p.find_fn(name)
        if atom is None:
            d.missing.add(name)
            return []
        return [d.call(name, mkv([atom], T('fn', name)), dict(hist), st, label=lb)]
    run = d.construct(name, dict(cspec), st=st)
    if run is None:
        return []
    run.label = lb
    run.events = list(run.events)
    if not hist:
        return [run]
    out = Run()
    out.entry, out.spec, out.label, out.fail, out.recv, out.st0, out.group, out.coarse = name, cspec, lb, run.fail, None, st, None, run.coarse
    out.rets, out.raises, out.events, out.binder = [], list(run.raises), list(run.events), run.binder
    cur = run.rets
    for i, (m, spec) in enumerate(hist):
        nxt = []
        out.rets = []
        for s0, recv in cur:
            r2 = d.invoke(name, m, recv, s0.clone(), dict(spec), label=lb + '#%d' % i, prefix='' if i == 0 else 's%d.' % (i + 1))
            if r2 is None:
                return []
            out.fail = out.fail or r2.fail
            out.coarse = max(out.coarse, r2.coarse)
            out.rets += r2.rets
            out.raises += r2.raises
            out.events += list(r2.events)
            nxt += [(s, recv) for s, _ in r2.rets]
        cur = nxt
    return [out]


KNOWN = {'param', 'const', 'Add', 'Sub', 'Mult', 'Div', 'USub', 'UAdd', 'cmp', 'in', 'is', 'tuple', 'dim', 'len'}


def path_of(st):
    x, out = st.path, []
    while x:
        out.append(x)
        x = x[0]
    return out


def exotic(t, names):
    """the condition speaks about one of the parameters through an operation the comparison facts do not cover"""
    sub = list(subterms(t))
    if not any(x.op == 'param' and x.args[0] in names for x in sub):
        return False
    return any(x.op not in KNOWN for x in sub)


def unmodelled_guard(run, names):
    """a raising exit that depends on an unmodelled condition about the parameters: the check cannot tell"""
    for st, exc, *_ in run.raises:
        for step in path_of(st):
            t = step[4] if len(step) > 4 else None
            if isinstance(t, Term) and exotic(t, names):
                return t
    return None


def tag_guard(run, tag):
    """an undecided branch that depends on a tagged argument"""
    for e in run.events:
        if e.kind == 'branch' and tag in (e.data.get('tags') or ()):
            return e
    return None
