"""Parameters of the beta ensembles.  Every history of the property (one or two sampling calls, then a normalization or a display) is analysed by abstract interpretation; each path
yields closed terms for the recorded parameters, for the sample, for the normalized points and for what the display hands to the plotting library, over the arguments of the calls and
the variates drawn.  They are compared by random interpretation with the definitions stated independently in this file: which parameters a call records, which law the sample has
given these parameters (matrix model or tridiagonal model, i.i.d. reference law for beta = 0), how sizes and reference measure are converted, and how points are rescaled."""
from sa import formula
from sa.sweep import label
from sa.formula import Form, obj, vec
from checks.c24 import gin, quindiag, TRI_N, TRI_G, TRI_B

TITLE = 'ensemble parameters'
LEVEL = 'other'
RULE = 'recorded parameters, sample, normalization and display of each history equal their definitions (random interpretation of the extracted terms)'
MAX_STATES = dict(quick=80, thorough=80)
B = 'beta_ensembles.'
FORMS = []
RS = 'rng'


# ---------------------------------------------------------------- the models: text of (recorded parameters, sample, normalized points x)
def half(b):
    return '[::2]' if b == 4 else ''


class Model:
    """one way to sample: arguments (name -> domain), the values the parameters must be recorded with, and the law of the sample (over N, M, ... and the arguments)"""
    def __init__(self, E, mode, beta, tag, args, defs, pre, params, sample, norm):
        self.E, self.mode, self.beta, self.tag, self.args, self.defs, self.pre, self.params, self.sample, self.norm = E, mode, beta, tag, args, defs, pre, params, sample, norm
        self.key = '%s_%s_%s%s' % (E.replace('Ensemble', '').lower(), mode, ('%g' % beta).replace('.', '_'), '_' + tag if tag else '')

    def step(self):
        return ('sample_%s_model' % self.mode, dict(self.args, random_state=RS))

    def values(self, r, i=0, total=1):
        v = {a: POINT[a](r) for a in self.args if not str(self.args[a]).startswith('c:')}
        sizes(v, r)
        pre = 's%d.' % i if total > 1 else ''
        return {pre + k: x for k, x in v.items()}

    def text(self, expr):
        return ''.join('%s = %s\n' % d for d in self.defs) + self.pre + expr


def sizes(v, r):
    """sizes of the matrices are at least N, and all small"""
    if 'size_N' in v:
        v['size_N'] = r.choice((2, 3))
    n = v.get('size_N', 10)
    for k in ('size_M', 'size_M1', 'size_M2'):
        if k in v:
            v[k] = n + r.choice((0, 1, 2, 3) if n < 4 else (0, 1, 40))


POINT = dict(size_N=lambda r: 2, size_M=lambda r: 3, size_M1=lambda r: 3, size_M2=lambda r: 3, loc=lambda r: r.uniform(-2, 2), scale=lambda r: r.uniform(.3, 2), shape=lambda r: r.uniform(.2, 3),
             a=lambda r: r.uniform(.2, 3), b=lambda r: r.uniform(.2, 3))
MODELS = []


def model(*a):
    MODELS.append(Model(*a))


def last(text):
    """split a multi-line formula into its definitions and its value"""
    *pre, val = text.split('\n')
    return ''.join(x + '\n' for x in pre), val


I, F = 'int', 'float'
for be in (0, 1, 2, 4):
    pre, x = ('', 'sqrt(2) * Z(size_N)') if be == 0 else (gin(be, 'size_N', 'size_N'), '(eigvalsh(A + conj(A).T) / sqrt(2))' + half(be))
    model('HermiteEnsemble', 'full', be, '', dict(size_N=I), [], pre, dict(loc='0', scale='sqrt(2)', size_N='size_N'), x, 'x / sqrt(%d * size_N)' % be if be else 'x')
    if be:
        model('LaguerreEnsemble', 'full', be, '', dict(size_N=I, size_M=I), [], gin(be, 'size_N', 'size_M'), dict(shape='%d / 2 * (size_M - size_N + 1)' % be, scale='2', size_N='size_N', size_M='size_M'),
              'eigvalsh(A @ conj(A).T)' + half(be), 'x / (%d * size_M)' % be)
        model('JacobiEnsemble', 'full', be, '', dict(size_N=I, size_M1=I, size_M2=I), [], gin(be, 'size_N', 'size_M1', 'G1') + gin(be, 'size_N', 'size_M2', 'G2') + 'W = G1 @ conj(G1).T\n',
              dict(a='%d / 2 * (size_M1 - size_N + 1)' % be, b='%d / 2 * (size_M2 - size_N + 1)' % be, size_N='size_N', size_M1='size_M1', size_M2='size_M2'),
              'eigvals(W @ inv(W + G2 @ conj(G2).T))' + half(be), 'x')
    if be != 4:
        for mode in ('Hermite', 'QR'):
            if be == 0:
                pre, x = '', 'exp(2j * pi * U(size_N))'
            elif mode == 'Hermite':
                pre, x = gin(be, 'size_N', 'size_N'), 'eigvals(eigh(A + conj(A).T)[1])'
            else:
                pre, x = gin(be, 'size_N', 'size_N') + 'Q, R = qr(A)\nd = diagonal(R)\n', 'eigvals(Q * (d / abs(d)))'
            model('CircularEnsemble', 'full', be, mode, dict(size_N=I, haar_mode="c:'%s'" % mode), [], pre, dict(size_N='size_N', haar_mode=lambda v, mode=mode: mode), x, 'x')
model('GinibreEnsemble', 'full', 2, '', dict(size_N=I), [], gin(2, 'size_N', 'size_N'), dict(size_N='size_N'), 'eigvals(A) / sqrt(2)', 'x / sqrt(size_N)')
model('CircularEnsemble', 'banded', 0, '', dict(size_N=I), [], '', dict(size_N='size_N'), 'exp(2j * pi * U(size_N))', 'x')
for be in (1, 2, 3):
    *pre, x = quindiag(4, be).split('\n')
    model('CircularEnsemble', 'banded', be, '', dict(size_N='c:4'), [], '\n'.join(pre) + '\n', dict(size_N='4'), x, 'x')
for be in (0, 1, 2, 2.5):
    bt = [('beta', '%g' % be)]
    if be:
        pre, x = last(TRI_N.replace('size', 'size_N'))
        g_pre, gx = last(TRI_G.replace('size', 'size_N'))
        b_pre, bx = last(TRI_B.replace('size', 'size_N'))
    else:
        pre = g_pre = b_pre = ''
        x, gx, bx = 'loc + scale * Z(size_N)', 'scale * G(shape * ones(size_N))', 'B(a * ones(size_N), b * ones(size_N))'
    model('HermiteEnsemble', 'banded', be, '', dict(loc=F, scale=F, size_N=I), bt, pre, dict(loc='loc', scale='scale', size_N='size_N'), x,
          '(x - loc) / (sqrt(0.5) * scale)' + (' / sqrt(beta * size_N)' if be else ''))
    M = '2 / beta * %s + size_N - 1' if be else lambda v: float('inf')
    gn = 'x / (scale / 2)' + (' / (beta * size_M)' if be else '')
    model('LaguerreEnsemble', 'banded', be, '', dict(shape=F, scale=F, size_N=I), bt + ([('size_M', M % 'shape')] if be else []), g_pre,
          dict(shape='shape', scale='scale', size_N='size_N', size_M='size_M' if be else M), gx, gn)
    model('JacobiEnsemble', 'banded', be, '', dict(a=F, b=F, size_N=I), bt + ([('size_M1', M % 'a'), ('size_M2', M % 'b')] if be else []), b_pre,
          dict(a='a', b='b', size_N='size_N', size_M1='size_M1' if be else M, size_M2='size_M2' if be else M), bx, 'x')
    if be:
        model('LaguerreEnsemble', 'banded', be, 'sizes', dict(shape=F, scale=F, size_N=I, size_M=I), bt + [('shape', 'beta / 2 * (size_M - size_N + 1)'), ('scale', '2')], g_pre,
              dict(shape='shape', scale='scale', size_N='size_N', size_M='size_M'), gx, gn)
        model('JacobiEnsemble', 'banded', be, 'sizes', dict(a=F, b=F, size_N=I, size_M1=I, size_M2=I),
              bt + [('a', 'beta / 2 * (size_M1 - size_N + 1)'), ('b', 'beta / 2 * (size_M2 - size_N + 1)')], b_pre,
              dict(a='a', b='b', size_N='size_N', size_M1='size_M1', size_M2='size_M2'), bx, 'x')
    if be:
        for one in ('size_M1', 'size_M2'):      # one size alone does not determine the measure: a and b are used
            model('JacobiEnsemble', 'banded', be, 'only_' + one, {'a': F, 'b': F, 'size_N': I, one: I}, bt + [('size_M1', M % 'a'), ('size_M2', M % 'b')], b_pre,
                  dict(a='a', b='b', size_N='size_N', size_M1='size_M1', size_M2='size_M2'), bx, 'x')
BYM = {m.key: m for m in MODELS}


# ---------------------------------------------------------------- what is asked of a history
def after(m):
    """recorded parameters of the last call"""
    return [('params.' + k, m.text(s) if isinstance(s, str) else s) for k, s in m.params.items()]


def hist(*ms, tail=()):
    return obj(B + ms[0].E, dict(beta='c:%g' % ms[0].beta if ms[0].beta != int(ms[0].beta) else 'c:%d' % ms[0].beta), *([m.step() for m in ms] + list(tail)))


def points(*ms, tail=0, extra=None):
    def f(r):
        out = {}
        for i, m in enumerate(ms, 1):
            out.update(m.values(r, i, len(ms) + tail))
        if extra:
            out.update(extra(r))
        return out
    return f


def add(key, task, pts, want, **kw):
    FORMS.append(Form(key, task, pts, want, **kw))


for m in MODELS:
    add(m.key, hist(m), points(m), after(m) + [('return', m.text(m.sample))])

PAIR = [(m, o) for m in MODELS for o in MODELS if m.E == o.E and m.beta == o.beta and m.tag in ('', 'sizes', 'Hermite') and o.tag in ('', 'sizes', 'QR') and
        (m is not o or m.beta in (0, 2)) and m.beta in (0, 2)]
for m, o in PAIR:
    add('%s__%s' % (m.key, o.key), hist(m, o), points(m, o), after(o) + [('return', o.text(o.sample))])

for m in MODELS:
    if m.tag.startswith('only'):
        continue
    pt = points(m, tail=1, extra=lambda r: {'s2.points': vec(r, 4, -2, 2), 'dims': dict(n=4)})
    add('norm_' + m.key, hist(m, tail=[('normalize_points', dict(points='arr:n'))]), pt, [('return', ''.join('%s = %s\n' % d for d in m.defs) + 'x = points\n' + m.norm)])
for m, o in PAIR:
    pt = points(m, o, tail=1, extra=lambda r: {'s3.points': vec(r, 4, -2, 2), 'dims': dict(n=4)})
    if m is not o and o.norm != 'x':
        add('norm_%s__%s' % (m.key, o.key), hist(m, o, tail=[('normalize_points', dict(points='arr:n'))]), pt, [('return', ''.join('%s = %s\n' % d for d in o.defs) + 'x = points\n' + o.norm)])


# ---------------------------------------------------------------- displays
def shown(m, norm, how):
    """the data handed to scatter and hist, and the parameters of the reference law drawn with them"""
    c, S = [], m.text('x = %s\n' % m.sample)
    y = S + ('y = %s\n' % m.norm if norm else 'y = x\n')
    d = ''.join('%s = %s\n' % t for t in m.defs)
    if m.E in ('CircularEnsemble', 'GinibreEnsemble'):
        if how == 'plot':
            c += [('meth:scatter', (0, 'x'), y + 'real(y)'), ('meth:scatter', (1, 'y'), y + 'imag(y)')]
        else:
            c.append(('meth:hist', (0, 'x'), y + ('angle(y)' if m.E[0] == 'C' else 'abs(y)')))
        return c
    c.append(('meth:scatter' if how == 'plot' else 'meth:hist', (0, 'x'), y + 'y'))
    par = lambda k: d + m.params[k] if isinstance(m.params[k], str) else m.params[k]
    if m.E == 'HermiteEnsemble':
        c += [('semi_circle_law', ('R',), '2')] if m.beta else [('norm.pdf', (1, 'loc'), '0'), ('norm.pdf', (2, 'scale'), 'sqrt(2)')]
    elif m.E == 'LaguerreEnsemble':
        c += [('marcenko_pastur_law', ('M',), par('size_M')), ('marcenko_pastur_law', ('N',), 'size_N')] if m.beta else \
            [('gamma.pdf', (1, 'a'), 'shape'), ('gamma.pdf', (2, 'loc'), '0'), ('gamma.pdf', (3, 'scale'), '2')]
    else:
        c += [('wachter_law', ('M_1',), par('size_M1')), ('wachter_law', ('M_2',), par('size_M2')), ('wachter_law', ('N',), 'size_N')] if m.beta else \
            [('beta.pdf', (1, 'a'), 'a'), ('beta.pdf', (2, 'b'), 'b')]
    return c


for m in MODELS:
    if m.tag in ('', 'sizes', 'Hermite') and m.beta in (0, 2, 2.5):
        for how in ('plot', 'hist'):
            for norm in (True, False):
                add('%s_%s_%d' % (m.key, how, norm), hist(m, tail=[(how, dict(normalization='c:%s' % norm))]), points(m, tail=1), [], calls=shown(m, norm, how))
for m, o in PAIR:
    if m is not o and o.beta == 2:
        add('%s__%s_hist' % (m.key, o.key), hist(m, o, tail=[('hist', dict(normalization='c:True'))]), points(m, o, tail=1), [], calls=shown(o, True, 'hist'))

BY = {f.key: f for f in FORMS}


def tasks(tier):
    for f in FORMS:
        yield ('form', f.key)


def judge(r, task, res):
    f = BY[task[1]]
    res['label'] = label(f.task)
    found, decided, notes = formula.run(r, f)
    res['runs'] += 1
    res['obligations'] += decided + len(found)
    res['notes'] += notes
    seen = set()
    for x in found:
        if x['key'] not in seen:
            seen.add(x['key'])
            res['findings'].append(x)
