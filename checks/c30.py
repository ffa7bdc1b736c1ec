"""Laws of the exact samplers of finite DPPs.  Each sampler is analysed on small instances with symbolic kernel entries: every draw of an item forks the analysis, with a closed term for
the probability of each outcome, scalar uniform variates stay symbolic, and vectors of uniform variates compared with thresholds fork into the possible masks.  The leaves of this decision
tree give the law of the sample as a function of the kernel, which must be identical with the law of the DPP, projection DPP or k-DPP that the arguments describe (principal minors of
the kernels).  The identity is decided by random interpretation of both sides at random kernels.  Covered are the chain rule samplers for projection kernels and for eigenvectors, the sampler
for generic kernels, both selections of eigenvectors, and sample_exact and sample_exact_k_dpp of FiniteDPP in all modes but 'vfx' and 'alpha', for all representations of the kernel."""
import random
from sa import chains, exact, law
from sa.chains import Tree, point, differ, show_set, report, sampled
from sa.law import Undecided, BadProb
from sa.pit import NotEval

TITLE = 'exact laws'
LEVEL = 'other'
RULE = 'law of the sample, extracted as a function of the kernel from the decision tree of the sampler, = law of the DPP or k-DPP described by the arguments'
MAX_STATES = dict(quick=80, thorough=80)
POINTS = 3


def tasks(tier):
    for i, c in enumerate(exact.CASES):
        if tier == 'thorough' or c.tier == 'quick':
            yield (c.key,)


BY = {c.key: c for c in exact.CASES}


def columns(pt, V, name):
    """which columns of a parameter a matrix consists of"""
    A = pt.env_of(name)
    n, k = A.shape[1], V.shape[1] if len(V.shape) == 2 else 0
    out = []
    for j in range(k):
        c = V.data[j::k]
        m = [i for i in range(n) if max([abs(x - y) for x, y in zip(A.data[i::n], c)] or [0]) < 1e-9]
        if not m:
            raise NotEval('not a column of the argument')
        out.append(m[0])
    return tuple(sorted(out))


def reader(p, c):
    def value(pt, st, v):
        if c.columns:
            return columns(pt, pt.ev(p.tm(st, v)), 'eig_vecs')
        x = law.content(p, st, v, pt.ev)
        if x and isinstance(x[0], tuple):
            x = x[0]
        return tuple(sorted(x))
    return value


def compare(r, c, res, build=None, npoints=POINTS):
    """differences between the law of a case and its specification: [(kind, text)]"""
    res['runs'] += 1
    rr = random.Random(11)
    try:
        tree = (build or Tree)(r, c.task, result=c.result, limit=20000, sample=sampled(c.points(random.Random(5))[0]))
    except Undecided as e:
        res['notes'].append('%s: %s' % (c.key, e))
        return None, []
    res['paths'] += len(tree.leaves) + len(tree.exc)
    bad = []
    val = reader(r.p, c)
    for _ in range(npoints):
        vals, ref = c.points(rr)
        try:
            d, e = tree.law(point(vals), val)
        except (Undecided, NotEval) as e:
            res['notes'].append('%s: %s' % (c.key, e))
            return tree, []
        except BadProb as e:
            bad.append(('draw', e.args[0] if e.args else ''))
            continue
        if abs(sum(d.values()) + e - 1) > 1e-6:
            res['notes'].append('%s: probabilities sum to %.6g' % (c.key, sum(d.values()) + e))
            return tree, []
        res['obligations'] += len(set(d) | set(ref))
        if e > 1e-9:
            bad.append(('raises', 'the call fails with probability %.3g' % e))
            continue
        k = differ(d, ref)
        if k is not None:
            bad.append(('law', 'the probability of %s is %.6g, but the kernel says %.6g' % (show_set(k), d.get(k, 0.0), ref.get(k, 0.0))))
    return tree, bad if len(bad) > 1 else []


def judge(r, task, res):
    c = BY[task[0]]
    res['label'] = c.key
    tree, bad = compare(r, c, res)
    for kind, text in bad[:1]:
        res['findings'].append(report(r, 'law', tree.task, '%s:%s' % (c.key, kind), text, c.at))
