#!/usr/bin/env python3
"""Decide one property on /repo's current source: python3 check.py C01 [--tier quick|thorough]

exit 0: the property held on everything analysed; exit 1: violation (a line VIOLATION property=<id> replay=<path>)."""
import sys
import os
import json
import time
import argparse
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith(('#', 'fixed:')):
                out.append(json.loads(l))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('SA_REPO', '/repo'))
    ap.add_argument('--procs', type=int, default=8)
    ap.add_argument('--limit', type=int, default=700)
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only', default=None, help='substring of the task label (development)')
    a = ap.parse_args()
    from sa import sweep
    t0 = time.time()
    mod = 'checks.' + a.prop.lower()
    m = importlib.import_module(mod)
    findings, notes, results, lost = [], [], [], 0
    static = {}
    tasks = list(m.tasks(a.tier)) if hasattr(m, 'tasks') else []
    if a.only:
        tasks = [t for t in tasks if a.only in (sweep.label(t) if t[0] in ('fn', 'obj') else str(t))]
    if tasks:
        results, lost = sweep.sweep(mod, a.repo, a.tier, tasks, a.procs, a.limit)
    if lost:
        notes.append('%d of %d tasks were not analysed within the time limit' % (lost, len(tasks)))
    if hasattr(m, 'static'):
        try:
            static = m.static(a.repo, a.tier)
        except Exception as e:
            if a.v:
                raise
            static = dict(findings=[], obligations=0, notes=['static pass: %s: %s' % (type(e).__name__, e)])
    allr = results + ([static] if static else [])
    seen = {}
    for r in allr:
        for f in r.get('findings', ()):
            g = seen.setdefault(f['key'], f)
            if g is not f:
                g.setdefault('also', []).append(f['entry'])
        notes += r.get('notes', [])
    findings = sorted(seen.values(), key=lambda f: f['key'])
    kn = {k['key']: k for k in known() if k['property'] == a.prop}
    new = [f for f in findings if f['key'] not in kn]
    old = [f for f in findings if f['key'] in kn]
    ev = a.evidence
    os.makedirs(ev, exist_ok=True)
    for f in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (a.prop, kn[f['key']]['what'], f['where']))
    rp = os.path.join(ev, a.prop + '.violations.json')
    if new:
        json.dump(new, open(rp, 'w'), indent=1, default=str)
        for f in new:
            print('%s: %s: [%s] %s' % (f['where'], f['fn'], f['rule'], f['msg']))
            if f['entry']:
                print('    reached from %s%s' % (f['entry'], ' and %d more' % len(f['also']) if f.get('also') else ''))
            for t in f['trace'][:6]:
                print('    ' + t)
    elif os.path.exists(rp):
        os.remove(rp)
    ob = sum(r.get('obligations', 0) for r in allr)
    bad = sum(1 for f in findings)
    cov = dict(
        explanation=' '.join((m.__doc__ or '').split()),
        obligations=ob, discharged=ob - bad if ob >= bad else 0,
        tasks=len(tasks), tasks_analysed=len(results), runs=sum(r.get('runs', 0) for r in allr),
        normal_exit_states=sum(r.get('paths', 0) for r in allr), exceptional_exit_states=sum(r.get('raises', 0) for r in allr),
        rule=getattr(m, 'RULE', ''), samples=sorted(r['label'] for r in results)[:12], static=static.get('summary', {}) if static else {},
        findings=[f['key'] for f in findings], unanalysed=sorted(set(notes))[:60],
        checker_cmd='python3 /verif/check.py %s --tier %s' % (a.prop, a.tier),
        trusted_base=['/verif/sa (abstract interpreter and library model)', 'CPython ast module', 'the driver tables in /verif/sa/drive.py'])
    json.dump(dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=getattr(m, 'LEVEL', 'other'),
                   coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new),
                   assumptions=getattr(m, 'ASSUMPTIONS', ['library calls behave as modelled in sa/lib.py and sa/calls.py', 'no monkey patching of the package from outside'])),
              open(os.path.join(ev, a.prop + '.json'), 'w'), indent=1, default=str)
    if a.v:
        for n in sorted(set(notes)):
            print('note:', n)
        print('%d tasks, %d obligations, %d findings (%d known), %.1f s' % (len(tasks), ob, len(findings), len(old), time.time() - t0))
        for r in sorted(results, key=lambda r: -r['wall'])[:5]:
            print('   %.1fs %s' % (r['wall'], r['label']))
    if new:
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
