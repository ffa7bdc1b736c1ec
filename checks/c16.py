"""Rejection samplers return accepted proposals only.  Each sampler is analysed over two iterations of its loop of proposals, with symbolic variates; every path ends with a value, as a term
over the variates drawn so far, or with an exception.  At random values of the arguments and of the variates, the path that is taken is determined; a value returned after some proposals
were rejected must be the value that the sampler returns if the rejected variates had not been drawn.  So a value returned when the trials are exhausted is a violation, and so is a value
that depends on rejected proposals, e.g. through a stale array, and an acceptance rule that changes with the number of rejections."""
import itertools
import random
from sa import chains, formula, law, pit, reject
from sa.chains import report
from sa.engine import Giveup
from sa.formula import fn, obj
from sa.law import Undecided, BadProb
from sa.pit import NotEval, NumErr, Arr

TITLE = 'rejection'
LEVEL = 'other'
RULE = 'a value returned after rejected proposals = the value returned if the rejected variates had not been drawn; exhausted trials raise'
MAX_STATES = dict(quick=80, thorough=80)
WALKS = dict(quick=60, thorough=600)


def tasks(tier):
    for c in reject.CASES:
        if c.drop:
            yield (c.key, tier)


BY = {c.key: c for c in reject.CASES}


def judge(r, task, res):
    c = BY[task[0]]
    res['label'] = c.key
    res['runs'] += 1
    try:
        tree = c.tree(r)
    except (Undecided, Giveup) as e:
        res['notes'].append('%s: %s' % (c.key, e))
        return
    res['paths'] += len(tree.out) + len(tree.exc)
    rr = random.Random(7)
    c.walking = True
    bad, fail, done, deep = [], {}, 0, 0
    points = [c.point(rr) for _ in range(4)]
    for k in range(8 * WALKS[task[1]]):
        pt = rr.choice(points)
        try:
            w = reject.Walk(tree, pt, rr)
            if w.result != 'value':
                continue
            n, m = tree.depth(w.path), tree.minimal(pt)[0]
            done += 1
            if n <= m:
                continue
            v = w.ev(w.leaf[1])
            # the values of all variates of the path, by number
            for i in range(1, n + 1):
                if i not in w.vals:
                    for s in sorted(tree.vars.get(i, ()), key=repr)[:1]:
                        w.bind(s)
            deep += 1
            res['obligations'] += 1
            if not any(matches(tree, pt, w, pick, v, c) for pick in itertools.combinations(range(1, n + 1), m)):
                bad.append('after the rejection of a proposal, the call returns %s' % brief(c.show(v)))
                if len(bad) > 2:
                    break
        except (NotEval, Undecided, reject.Exhausted, ZeroDivisionError, OverflowError, ValueError) as e:
            fail[str(e)[:80]] = fail.get(str(e)[:80], 0) + 1
        if deep >= WALKS[task[1]]:
            break
    if not deep:
        res['notes'].append('%s: no path with a rejection is taken (%d values; %s)' % (c.key, done, list(fail.items())[:2]))
    if len(bad) > 1:
        res['findings'].append(report(r, 'rejected', tree.task, c.key, '%s, but no proposal that it has drawn is accepted with this value' % bad[0], c.at))


def brief(v):
    v = law.plain(v)
    return repr(v)[:60]


def matches(tree, pt, w, pick, v, c):
    if any(i not in w.vals for i in pick):
        return False
    try:
        z = reject.Walk.__new__(reject.Walk)
        z.tree, z.rnd, z.given, z.env, z.hook = tree, w.rnd, True, dict(pt.env), pt.hook
        z.vals, z.drawn, z.memo = {j + 1: w.vals[i] for j, i in enumerate(pick)}, dict(w.drawn), {}
        for path, st, t, d in tree.minimal(pt)[1]:
            if z.holds(path):
                return reject.same(c.show(z.ev(t)), c.show(v))
    except (NotEval, reject.Exhausted):
        return False
    return False
