"""Laws of the rejection samplers.  Each sampler is analysed with symbolic variates (see C16); the paths that return the first proposal yield its value as a function of one variate, and the
probability of its acceptance as a function of the value.  So the density of an accepted proposal is known in terms of the arguments: the density of the variate, divided by the derivative of
the value, times the probability of acceptance, summed over the paths.  It must be proportional to the documented density, which is decided by random interpretation."""
import math
import random
from sa import law, pit, reject
from sa.chains import report
from sa.engine import Giveup
from sa.law import Undecided, BadProb
from sa.pit import NotEval

TITLE = 'laws of rejection samplers'
LEVEL = 'other'
RULE = 'density of an accepted proposal, extracted from the paths of the first iteration, is proportional to the documented density'
MAX_STATES = dict(quick=80, thorough=80)
POINTS = dict(quick=3, thorough=12)


def tasks(tier):
    for c in reject.CASES:
        if c.law:
            yield (c.key, tier)


BY = {c.key: c for c in reject.CASES}


def judge(r, task, res):
    c = BY[task[0]]
    res['label'] = c.key
    res['runs'] += 1
    try:
        tree = c.tree(r)
        res['paths'] += len(tree.out)
        bad, notes = c.compare(tree, POINTS[task[1]], res)
    except (Undecided, Giveup, NotEval, BadProb) as e:
        res['notes'].append('%s: %s' % (c.key, e))
        return
    res['notes'] += ['%s: %s' % (c.key, x) for x in notes[:2]]
    if type(c) in (reject.Case, reject.VectorCase, reject.LoopCase):
        try:
            b2, notes = c.again(tree, POINTS[task[1]], res)
        except (Undecided, Giveup, NotEval, BadProb) as e:
            b2, notes = [], [str(e)]
        res['notes'] += ['%s: second proposal: %s' % (c.key, x) for x in notes[:2]]
        if len(b2) > 1:
            res['findings'].append(report(r, 'independent', tree.task, c.key, b2[0], c.at))
    if len(bad) > 1:
        res['findings'].append(report(r, 'density', tree.task, c.key, bad[0], c.at))
