"""Partition of the selector arguments (sampling mode, kernel type, haar mode, beta of a matrix model): an opaque value that
equals none of the documented ones is followed through every public entry; no normal exit may remain feasible and every exception
raised must be a ValueError. Each documented value is followed as well: it must have a normal exit and must not reach the sampling
algorithm of another value."""
from sa import sweep
from sa.sweep import finding, ev_finding, receivers, methods, method_specs, freeze, is_proj, rep_of, fd_spec, label
from sa.drive import FN, CL, FD, REPS
from sa.domain import run_dom, unmodelled_guard, dom_label, path_of
from checks.c09 import message, guarded

LEVEL = 'other'
RULE = 'an obligation is one exit (normal or exceptional) of a call with an unknown selector value, or one call with a documented value'

FNSEL = {'dppy.exact_sampling.proj_dpp_sampler_kernel': 'mode', 'dppy.exact_sampling.proj_dpp_sampler_eig': 'mode',
         'dppy.mcmc_sampling.dpp_sampler_mcmc': 'mode', 'dppy.random_matrices.circular_sampler_full': 'haar_mode'}
BETA_FN = ('hermite_sampler_full', 'laguerre_sampler_full', 'jacobi_sampler_full', 'circular_sampler_full')
X, M, U, R = 'dppy.exact_sampling.', 'dppy.mcmc_sampling.', 'dppy.exotic_dpps_core.', 'dppy.random_matrices.'
ALGO = {X + 'proj_dpp_sampler_kernel_GS': 'GS', X + 'proj_dpp_sampler_kernel_Schur': 'Schur', X + 'proj_dpp_sampler_kernel_Chol': 'Chol',
        X + 'proj_dpp_sampler_eig_GS': 'GS', X + 'proj_dpp_sampler_eig_GS_bis': 'GS_bis', X + 'proj_dpp_sampler_eig_KuTa12': 'KuTa12',
        X + 'dpp_sampler_generic_kernel': 'Chol', X + 'dpp_vfx_sampler': 'vfx', X + 'k_dpp_vfx_sampler': 'vfx',
        X + 'alpha_dpp_sampler': 'alpha', X + 'alpha_k_dpp_sampler': 'alpha',
        M + 'add_exchange_delete_sampler': 'AED', M + 'add_delete_sampler': 'AD', M + 'basis_exchange_sampler': 'E', M + 'zonotope_sampler': 'zonotope',
        U + 'ust_sampler_wilson': 'Wilson', U + 'ust_sampler_aldous_broder': 'Aldous-Broder'}
ALL = ('K', 'K_eig_dec', 'L', 'L_eig_dec', 'L_gram_factor', 'L_eval_X_data')
PROJ = ('K', 'K_eig_dec', 'A_zono')


def q(m):
    return 'c:%r' % m


def known_tasks():
    for fn, sel in FNSEL.items():
        for spec in sweep.alternatives(FN[fn], rs='rng'):
            yield ('fn', fn, freeze(spec))
    for b in (1, 2, 4):
        for n in BETA_FN:
            sp = dict(next(iter(sweep.alternatives(FN[R + n], rs='rng'))), beta=q(b))
            yield ('fn', R + n, freeze(sp))
    rs = {'random_state': 'rng'}
    for rep in ALL:
        for mode in ('GS', 'GS_bis', 'KuTa12', 'Chol'):
            yield ('obj', FD, freeze(fd_spec(rep)), (('sample_exact', freeze(dict(rs, mode=q(mode)))),))
        for mode in ('GS', 'GS_bis', 'KuTa12'):
            yield ('obj', FD, freeze(fd_spec(rep)), (('sample_exact_k_dpp', freeze(dict(rs, size='int', mode=q(mode)))),))
        for mode in ('AED', 'AD', 'E'):
            yield ('obj', FD, freeze(fd_spec(rep)), (('sample_mcmc', freeze(dict(rs, s_init='state', nb_iter='int', mode=q(mode)))),))
        yield ('obj', FD, freeze(fd_spec(rep)), (('sample_mcmc_k_dpp', freeze(dict(rs, size='int', nb_iter='int'))),))
    for rep in PROJ:
        for mode in ('GS', 'Chol', 'Schur'):
            if rep == 'K' or mode in ('GS', 'Chol', 'Schur'):
                yield ('obj', FD, freeze(fd_spec(rep, True)), (('sample_exact', freeze(dict(rs, mode=q(mode)))),))
        yield ('obj', FD, freeze(fd_spec(rep, True)), (('sample_exact_k_dpp', freeze(dict(rs, size='int', mode=q('GS')))),))
        yield ('obj', FD, freeze(fd_spec(rep, True)), (('sample_mcmc', freeze(dict(rs, s_init='state', size='int', nb_iter='int', mode=q('E')))),))
    yield ('obj', FD, freeze(fd_spec('K', True)), (('sample_exact_k_dpp', freeze(dict(rs, size='int', mode=q('Schur')))),))
    for mode in ('vfx', 'alpha'):
        yield ('obj', FD, freeze(fd_spec('L_eval_X_data')), (('sample_exact', freeze(dict(rs, mode=q(mode)))),))
        yield ('obj', FD, freeze(fd_spec('L_eval_X_data')), (('sample_exact_k_dpp', freeze(dict(rs, size='int', mode=q(mode)))),))
    yield ('obj', FD, freeze(fd_spec('A_zono', True)), (('sample_mcmc', freeze(dict(rs, nb_iter='int', mode=q('zonotope')))),))
    for rep in ALL:
        for kt in ('correlation', 'likelihood'):
            yield ('obj', FD, freeze(fd_spec(rep)), (('plot_kernel', freeze({'kernel_type': q(kt)})),))
    for rep in REPS:
        yield ('obj', FD, freeze(fd_spec(rep)), ())
    ust = 'dppy.exotic_dpps.UST'
    for spec in method_specs(ust, 'sample', rs='rng'):
        yield ('obj', ust, freeze({'graph': 'graph'}), (('sample', spec),))
    for cname in CL:
        if cname.endswith('Ensemble') and 'sample_full_model' in methods(cname):
            for b in (0, 1, 2, 4):
                if 'Ginibre' in cname and b != 2 or b == 0 and cname.endswith(('LaguerreEnsemble', 'JacobiEnsemble')):
                    continue        # beta = 0: the reference measure of the full model does not exist
                yield ('obj', cname, freeze({'beta': q(b)}), (sweep.base_sample(cname, 'sample_full_model'),))
                if b != 0 and 'Ginibre' not in cname:
                    yield ('obj', cname, freeze({'beta': q(b)}), (sweep.base_sample(cname, 'sample_banded_model'),))


def unknown_tasks(tier):
    for fn, sel in FNSEL.items():
        for spec in sweep.alternatives(FN[fn], rs='rng'):
            yield ('sel', ('fn', fn, freeze(dict(spec, **{sel: 'strx'}))), sel)
    for rep in REPS:
        for pr in (False, True):
            cs = freeze(fd_spec(rep, pr))
            for m, sel, sp in (('sample_exact', 'mode', {'random_state': 'rng'}), ('sample_exact_k_dpp', 'mode', {'random_state': 'rng', 'size': 'int'}),
                               ('sample_mcmc', 'mode', {'random_state': 'rng', 's_init': 'state', 'nb_iter': 'int', 'size': 'int'}),
                               ('sample_mcmc', 'mode', {'random_state': 'rng'}), ('plot_kernel', 'kernel_type', {})):
                yield ('sel', ('obj', FD, cs, ((m, freeze(dict(sp, **{sel: 'strx'}))),)), sel)
            # after an earlier call the object has other representations as well
            for m0 in (('compute_K', ()), ('compute_L', ()), ('sample_exact', freeze({'random_state': 'rng', 'mode': q('GS')}))):
                for m, sp in (('sample_exact', {'random_state': 'rng'}), ('sample_exact_k_dpp', {'random_state': 'rng', 'size': 'int'})):
                    yield ('sel', ('obj', FD, cs, (m0, (m, freeze(dict(sp, mode='strx'))))), 's2.mode')
            kt = fd_spec(rep, pr)
            yield ('sel', ('obj', FD, freeze(dict(kt, kernel_type='strx')), ()), 'kernel_type')
    yield ('sel', ('obj', 'dppy.exotic_dpps.UST', freeze({'graph': 'graph'}), (('sample', freeze({'mode': 'strx', 'random_state': 'rng'})),)), 'mode')
    for a in CL['dppy.beta_ensembles.CircularEnsemble'][0]['beta'].split('|'):
        for b in (1, 2, 4):
            yield ('sel', ('obj', 'dppy.beta_ensembles.CircularEnsemble', freeze({'beta': q(b)}), (('sample_full_model', freeze({'size_N': 'int', 'haar_mode': 'strx', 'random_state': 'rng'})),)), 'haar_mode')
    ne = tuple(('NotEq', 'beta', k) for k in (1, 2, 4))
    pos = (('Gt', 'beta', 0),) + ne
    for n in BETA_FN:
        for ty in ('float', 'int'):
            yield ('dom', 'fn', R + n, (), freeze(dict(next(iter(sweep.alternatives(FN[R + n], rs='rng'))), beta=ty)), ne)
    for cname in CL:
        if cname.endswith(('HermiteEnsemble', 'LaguerreEnsemble', 'JacobiEnsemble', 'CircularEnsemble')):
            for ty in ('float', 'int'):
                yield ('dom', 'obj', cname, freeze({'beta': ty}), (sweep.base_sample(cname, 'sample_full_model'),), pos)
    qd = R + 'mu_ref_unif_unit_circle_sampler_quindiag'
    yield ('dom', 'fn', qd, (), freeze({'beta': 'int', 'size': 'int', 'random_state': 'rng'}), (('LtE', 'beta', 0),))
    yield ('dom', 'fn', qd, (), freeze({'beta': 'float', 'size': 'int', 'random_state': 'rng'}), ())
    for ty in ('float', 'int'):
        yield ('dom', 'obj', 'dppy.beta_ensembles.GinibreEnsemble', freeze({'beta': ty}), (), (('NotEq', 'beta', 2),))
        yield ('dom', 'obj', 'dppy.beta_ensembles.GinibreEnsemble', freeze({'beta': ty}), (('sample_full_model', freeze({'size_N': 'int', 'random_state': 'rng'})),), (('NotEq', 'beta', 2),))


def tasks(tier):
    yield from unknown_tasks(tier)
    yield from known_tasks()


ACC = {'undefined': 'NameError', 'unbound': 'UnboundLocalError', 'noattr': 'AttributeError', 'attr_on_none': 'AttributeError', 'badcall': 'TypeError',
       'unpack': 'TypeError', 'badraise': 'TypeError', 'notcallable': 'TypeError', 'nokey': 'KeyError', 'strformat': 'IndexError'}


def judge(r, task, res):
    p = r.p
    if task[0] == 'sel':
        judge_unknown(r, task[1], task[2], r.run(task[1]), label(task[1]).replace("'strx'", 'unknown').replace('strx', '<unknown>'), res)
    elif task[0] == 'dom':
        judge_unknown(r, task, 'beta', run_dom(r, task), dom_label(task), res)
    else:
        judge_known(r, task, res)


def judge_unknown(r, task, sel, runs, lb, res):
    p = r.p
    res['label'] = lb
    what = sel.split('.')[-1]
    fn = task[2] if task[0] == 'dom' else task[1]
    if task[0] == 'obj' and task[3]:
        fn += '.' + task[3][-1][0]
    if task[0] == 'dom' and task[1] == 'obj' and task[4]:
        fn += '.' + task[4][-1][0]
    for run in runs:
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        res['obligations'] += len(run.rets) + len(run.raises)
        if run.fail:
            continue
        # conditions about the selector that the analysis could not decide: no verdict
        vague = None
        if task[0] == 'dom':
            vague = unmodelled_guard(run, {sel})
        else:
            for e in run.events:
                if e.kind in ('branch', 'usercall') and ('p', sel) in (e.data.get('tags') or ()) and not partial_match(e.data.get('term')):
                    vague = e
        if vague is not None:
            res['notes'].append('undecided condition on %s: %s' % (sel, lb))
            continue
        if run.rets:
            res['findings'].append(finding('accepted-unknown', '', fn, what, 'an unknown value of %s is accepted: the call can return normally' % what, lb))
        for st, exc, *_ in run.raises:
            name = exc.name
            if name is None or exc.implicit:
                continue
            if name not in ('ValueError', 'UnicodeError') and not subclass(p, name, 'ValueError'):
                # only if nothing but the selector can be the reason: the path took no other decision
                if what in ('mode', 'haar_mode', 'kernel_type', 'beta') and not foreign_decisions(st, sel):
                    where = p.where(exc.node) if exc.node is not None else ''
                    res['findings'].append(finding('wrong-error', where, fn, '%s:%s' % (what, name), 'an unknown value of %s ends in %s instead of ValueError' % (what, name), lb))
        for e in run.events:
            if e.kind in ACC and not guarded(e) and message(p, e):
                res['findings'].append(ev_finding(p, 'accident', e, '%s:%s' % (what, e.kind), 'an unknown value of %s fails by accident (%s)' % (what, ACC[e.kind]), lb))


def partial_match(t):
    """a test that some unknown values pass and others do not: prefix, suffix, substring, slice"""
    if t is None or t.op not in ('strpre', 'in', 'cmp'):
        return False
    if t.op == 'strpre':
        return t.args[2].op == 'const'
    if t.op == 'in':
        return t.args[-1].op == 'const' and isinstance(t.args[-1].args[0], str) and not t.args[-1].args[0].startswith('[')
    return t.args[0] == 'Eq' and any(x.op == 'idx' for x in t.args[1:]) and any(x.op == 'const' and isinstance(x.args[0], str) for x in t.args[1:])


def subclass(p, name, base):
    import builtins
    c = getattr(builtins, name, None)
    if isinstance(c, type):
        return issubclass(c, getattr(builtins, base))
    k = [x for q_, x in p.classes.items() if q_.rsplit('.', 1)[-1] == name]
    return bool(k)       # a package exception class: not judged


def foreign_decisions(st, sel):
    return any(len(s) > 3 and s[3] and ('p', sel) not in s[3] for s in path_of(st))


def judge_known(r, task, res):
    p = r.p
    sel = None
    d = dict(task[2]) if task[0] == 'fn' else dict(task[3][-1][1]) if task[3] else {}
    mode = d.get('mode') or d.get('haar_mode')
    mode = eval(mode[2:]) if mode and mode.startswith('c:') else None
    fn = task[1] + ('.' + task[3][-1][0] if task[0] == 'obj' and task[3] else '')
    for run in r.run(task):
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        res['obligations'] += 1
        if run.fail:
            continue
        if not run.rets and run.raises:
            names = sorted({x[1].name or '?' for x in run.raises})
            if all(not x[1].implicit for x in run.raises):
                x = run.raises[0][1]
                res['findings'].append(finding('rejected', p.where(x.node) if x.node is not None else '', fn, str(mode or d.get('kernel_type') or dict(task[2]).get('beta') or ''),
                                               'a documented value always ends in %s' % ', '.join(names), run.label))
        if mode:
            for e in run.events:
                if e.kind == 'call':
                    a = ALGO.get(e.data['name'])
                    if a is not None and a != mode and not any(ALGO.get(s_) == mode for s_ in e.stack) and ALGO.get(e.fn) != mode:
                        res['findings'].append(ev_finding(p, 'misdispatch', e, '%s->%s' % (mode, e.data['name'].rsplit('.', 1)[-1]), 'mode %s runs %s' % (mode, e.data['name'].rsplit('.', 1)[-1]), run.label))
