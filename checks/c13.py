"""Detailed balance of the Markov chains on subsets.  One iteration of each chain is analysed from every state of a small ground set with symbolic kernel entries: discrete variates are
enumerated, uniform variates stay symbolic, and every path yields closed terms for the probabilities of its choices, the thresholds its uniform variates are compared with and the next
state.  This gives the one-step transition probabilities as functions of the kernel.  The balance equations det(L_S) P(S -> S') = det(L_S') P(S' -> S), for all pairs of states, are
identities between such functions, and are decided by random interpretation (evaluation of both sides at random positive definite kernels)."""
import random
from sa import chains, law
from sa.chains import Tree, chain_task, subsets, minor, psd, last, point, close, show_set, FUN, MC, report
from sa.law import Undecided, BadProb
from sa.pit import NotEval

TITLE = 'detailed balance'
LEVEL = 'other'
RULE = 'det(L_S) P(S -> S\') = det(L_S\') P(S\' -> S) for all pairs of states, P extracted from the source of the chain (decision tree of one iteration, symbolic kernel)'
MAX_STATES = dict(quick=80, thorough=80)
SIZES = dict(quick=(2, 3), thorough=(2, 3, 4))


def tasks(tier):
    for N in SIZES[tier]:
        for mode in ('AED', 'AD', 'E'):
            for route in ('fn', 'dispatch', 'L') + (('Lk', 'K') if mode == 'E' else ()):
                if route == 'fn' or N == 3:
                    for k in (range(1, N + 1) if mode == 'E' else (None,)):
                        yield ('balance', route, mode, N, k)


def states(mode, N, k):
    return [S for S in subsets(N, None if k is None else (k,)) if mode != 'E' or S]


def kernel(route, k, r, N):
    return chains.gram(chains.orth(r, N, k)) if route == 'K' else psd(r, N)


def disconnected(P, start):
    for S in start:
        seen, todo = {S}, [S]
        while todo:
            for x, w in P[todo.pop()].items():
                if w > 1e-12 and x not in seen:
                    seen.add(x)
                    todo.append(x)
        for S2 in start:
            if S2 not in seen:
                return S, S2
    return None, None


def judge(r, task, res):
    _, route, mode, N, k = task
    res['label'] = 'one iteration of %s (%s), %d items%s' % (mode, route, N, '' if k is None else ', size %d' % k)
    start = states(mode, N, k)
    trees = {}
    for S in start:
        t = chain_task(route, mode, N, S, 2)
        res['runs'] += 1
        try:
            trees[S] = Tree(r, t, result=chains.trace_is(k) if route == 'K' else None)
        except Undecided as e:
            res['notes'].append('%s: %s' % (chains.label(t), e))
            return
        res['paths'] += len(trees[S].leaves) + len(trees[S].exc)
    at = MC + FUN[mode]
    rr = random.Random(7)
    bad = {}
    for _ in range(4):
        K = kernel(route, k, rr, N)
        pt = point({'kernel': K} if route in ('fn', 'dispatch') else {'K': K} if route == 'K' else {'L': K})
        P = {}
        for S, tree in trees.items():
            try:
                P[S], e = tree.law(pt, lambda pt, st, v: last(law.content(r.p, st, v, pt.ev)))
            except (Undecided, NotEval) as e:
                res['notes'].append('%s: %s' % (chains.label(tree.task), e))
                return
            except BadProb as e:
                bad.setdefault(('draw', str(e)), []).append(S)
                P[S] = None
                continue
            if abs(sum(P[S].values()) + e - 1) > 1e-6:
                res['notes'].append('%s: probabilities sum to %.6g' % (chains.label(tree.task), sum(P[S].values()) + e))
                return
            if e > 1e-9:
                bad.setdefault(('raises',), []).append(S)
        w = {S: minor(K, S) for S in start}
        for S in start:
            if not P[S]:
                continue
            for S2 in P[S]:
                if S2 not in w:
                    bad.setdefault(('leaves', len(S)), []).append((S, S2))
            for S2 in start:
                if S < S2 and P[S2]:
                    res['obligations'] += 1
                    a, b = w[S] * P[S].get(S2, 0.0), w[S2] * P[S2].get(S, 0.0)
                    if not close(a, b):
                        bad.setdefault(('pair', len(S), len(S2)), []).append((S, S2, a, b))
        if all(P[S] for S in start) and not bad:
            res['obligations'] += 1
            S, S2 = disconnected(P, start)
            if S2 is not None:
                bad[('reach', 0)] = [(S, S2)]
    for key, ex in sorted(bad.items(), key=repr):
        n = len(ex)
        if key[0] == 'pair':
            if n < 2:
                continue
            S, S2, a, b = ex[0]
            move = 'exchange' if len(S) == len(S2) else 'add/delete'
            msg = 'moves between states of sizes %d and %d violate detailed balance: det(L_S) P(S -> S\') = %.4g but det(L_S\') P(S\' -> S) = %.4g for S = %s, S\' = %s' % (len(S), len(S2), a, b, show_set(S), show_set(S2))
            res['findings'].append(report(r, 'balance', trees[S].task, '%s:%s' % (mode, move), msg, at))
        elif key[0] == 'reach':
            S, S2 = ex[0]
            res['findings'].append(report(r, 'balance', trees[S].task, '%s:reach' % mode, 'no sequence of moves leads from %s to %s' % (show_set(S), show_set(S2)), at))
        elif key[0] == 'leaves':
            S, S2 = ex[0]
            res['findings'].append(report(r, 'balance', trees[S].task, '%s:%s' % (mode, 'leaves'), 'from %s the chain moves to %s, which is not a state of the chain' % (show_set(S), show_set(S2)), at))
        elif key[0] == 'draw':
            res['findings'].append(report(r, 'balance', trees[ex[0]].task, '%s:draw' % mode, key[1], at))
        else:
            res['findings'].append(report(r, 'balance', trees[ex[0]].task, '%s:raises' % mode, 'an iteration from %s fails with positive probability' % show_set(ex[0]), at))
    uniq = {}
    for f in res['findings']:
        uniq.setdefault(f['key'], f)
    res['findings'] = list(uniq.values())
