import contextlib
import copy
import io
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import facet, Violation, R

ID = 'D03'
TITLE = 'Filter design: the best filter of the grid, solving its equations'
RULE = ('Designs with random lengths, grids, pairs, check points, criteria; '
        'random options that must not matter; saved and loaded. Oracle: own '
        'base, own least-squares, own search over the grid. Non-trivial: the '
        'minimum is finite.')
ASSUMPTIONS = ['The equations are so ill-conditioned that coefficients are '
               'compared through their residuals.']


def warm():
    import empymod.scripts.fdesign  # noqa: F401
    import scipy.optimize  # noqa: F401


NAMES = {'hankel': ['j0_1', 'j0_2', 'j0_3', 'j1_1', 'j1_2', 'j1_3'],
         'fourier': ['sin_1', 'sin_2', 'sin_3', 'cos_1', 'cos_2', 'cos_3']}


def own(name, a):
    """A pair of the user's own: any name, complex values."""
    from empymod.scripts.fdesign import Ghosh
    return Ghosh(name, lambda x: np.exp(-a*x)*(1+.5j),
                 lambda b: (1+.5j)/np.sqrt(a*a+b*b))


def pair(p):
    from empymod.scripts import fdesign
    if p['t'] == 'own':
        return own(p['n'], p['a'])
    if p['t'] == 'j2':
        A, B = fdesign.j0_2(p['a']), fdesign.j1_2(p['a'])
        return fdesign.Ghosh('j2', lambda x: (A.lhs(x), B.lhs(x)),
                             lambda b: A.rhs(b) + B.rhs(b)/b)
    if p['t'] == 'cplx':
        return fdesign.j0_4(p['a'], 1., 1.)
    return getattr(fdesign, p['t'])(p['a'])


def rng(draw, lo, hi):
    a = draw(st.floats(lo, hi))
    how = draw(st.sampled_from(['one', 'range', 'range', 'range', 'same',
                                'num1']))
    if how == 'one':
        return round(a, 3)
    w = draw(st.floats(.02, .3))*(hi-lo)
    b = a+w if draw(st.integers(0, 3)) else a-w*.3
    a, b = round(a, 3), round(b, 3)
    if how == 'same':
        return [a, a, draw(st.integers(1, 4))]
    return [a, b, 1 if how == 'num1' else draw(st.integers(2, 4))]


@st.composite
def dcase(draw):
    fam = draw(st.sampled_from(['hankel', 'fourier', 'own']))
    kinds = {'hankel': ['j0', 'j1'], 'fourier': ['sin', 'cos'],
             'own': ['abc', 'j0']}[fam]
    A = gen.lg(.3, 3.)

    def one(kind):
        if kind == 'abc':
            return {'t': 'own', 'n': 'abc', 'a': draw(A)}
        if kind == 'j0' and draw(st.integers(0, 5)) == 0:
            return {'t': 'cplx', 'a': draw(gen.lg(1e3, 1e5))}
        return {'t': draw(st.sampled_from(
            [n for n in sum(NAMES.values(), []) if n.startswith(kind)])),
            'a': draw(A)}

    use = draw(st.sampled_from([kinds[:1], kinds[1:], kinds, kinds[::-1]]))
    fI = [one(k) for k in use]
    if draw(st.integers(0, 3)):
        fC = [one(draw(st.sampled_from(use)))
              for _ in range(draw(st.integers(1, 3)))]
        if fam == 'hankel' and len(use) == 2 and draw(st.booleans()):
            fC.insert(draw(st.integers(0, len(fC))), {'t': 'j2', 'a': draw(A)})
    else:
        fC = None
    c = {'n': draw(st.sampled_from(list(range(4, 42))+list(range(15, 36)))),
         'sp': rng(draw, .15, .9), 'sh': rng(draw, -1.5, 1.), 'fI': fI, 'fC': fC,
         'share': draw(st.integers(0, 5)) == 0,
         'tuple': draw(st.booleans()),
         'r': [draw(gen.lg(.1, 3.)), draw(gen.lg(1.5, 1e4)),
               draw(st.integers(3, 80))] if draw(st.integers(0, 5)) else None,
         'rdef': draw(st.sampled_from([[1, 1, 2], [1, 1, 2], [0, 0, 1],
                                       [2, 1, 3], [1, 2, 1.5], [0, 2, 4]])),
         'reim': draw(st.sampled_from([None, 'real', 'imag'])),
         'cvar': draw(st.sampled_from(['amp', 'r'])),
         'error': draw(st.sampled_from([.01, .01, .001, .1, .3, 1e-5])),
         'name': draw(st.sampled_from([None, 'abc', 'my.gz', 'x_1', 'a.txt'])),
         'full': draw(st.booleans()), 'verb': draw(st.integers(0, 2)),
         'save': draw(st.booleans()), 'finish': draw(
             st.sampled_from([None, False, None, None, None, True, 'fmin']))}
    if fam != 'hankel' and c['reim'] == 'imag':
        c['reim'] = 'real'
    if c['reim'] == 'imag':
        c['fI'] = [p if p['t'] == 'cplx' else {'t': 'cplx', 'a': 1e4}
                   for p in fI[:1] if True]
        c['fC'] = None
    return c


def grid(x):
    if np.size(x) == 1:
        return np.array([x])
    a, b, n = x
    return np.linspace(a, b, n) if n > 1 and a != b else np.array([a])


def goal(dlf, fC, r, error, cvar):
    """What design minimizes: worst pair; smallest recovered or 1/r."""
    best, first = None, None
    k = dlf.base/r[:, None]
    soft = False
    for f in fC:
        with np.errstate(all='ignore'):
            if f.name == 'j2':
                a, b = f.lhs(k)
                got = a @ dlf.j0/r + b @ dlf.j1/r**2
            else:
                got = f.lhs(k) @ getattr(dlf, f.name)/r
            rel = abs(got-f.rhs(r))/abs(f.rhs(r))
        soft |= bool(np.any(abs(rel/error-1) < 1e-6))
        bad = [i for i in range(r.size) if rel[i] > error]
        if np.all(got == 0) or np.all(np.isnan(got)):
            i = 0
        elif not bad:
            i = r.size-1
        elif len(bad) <= 4:
            i = max(0, bad[0]-1)
        else:  # four outliers are jumped over
            i = max(0, bad[4]-5)
        v = abs(got[i]) if cvar == 'amp' else 1/r[i]
        if best is None or v > best:
            best, first = v, i
    return (np.inf if first == 0 else best), soft


def residual(dlf, fI, rdef, reim):
    """Residuals of the filter and the smallest possible ones."""
    b = dlf.base
    r = np.logspace(np.log10(1/b.max())-rdef[0], np.log10(1/b.min())+rdef[1],
                    int(rdef[2]*b.size))
    k = b/r[:, None]
    for f in fI:
        with np.errstate(all='ignore'):
            L, y = reim(f.lhs(k)), reim(f.rhs(r)*r)
        if not (np.isfinite(L).all() and np.isfinite(y).all()):
            continue
        J = getattr(dlf, f.name)
        if not np.any(J):
            # Only if the matrix cannot be factorised.
            q, R_ = np.linalg.qr(L)
            if np.abs(np.diag(R_)).min() > 0:
                yield f.name, np.inf, 0, 0, 0
            continue
        s = np.linalg.lstsq(L, y, rcond=None)[0]
        yield (f.name, np.linalg.norm(L@J-y), np.linalg.norm(L@s-y),
               np.linalg.norm(abs(L)@abs(J)), np.linalg.norm(y))


@facet('design', dcase(), quick=450, thorough=12000, shards=6)
def design(c):
    from empymod.scripts import fdesign
    fI = [pair(p) for p in c['fI']]
    fC = None if c['fC'] is None else [pair(p) for p in c['fC']]
    if c['share'] and fC:
        fC = fI
    keep = [(f, f.lhs, f.rhs, f.name) for f in fI+(fC or [])]
    kw = {}
    if fC:
        kw['fC'] = (fC[0] if len(fC) == 1 else tuple(fC)) if c[
            'tuple'] else fC
    r = np.logspace(0, 5, 1000)
    if c['r']:
        r = np.geomspace(c['r'][0], c['r'][0]*c['r'][1], c['r'][2])
        kw['r'] = r
    if c['rdef'] != [1, 1, 2]:
        kw['r_def'] = tuple(c['rdef'])
    if c['reim']:
        kw['reim'] = getattr(np, c['reim'])
    reim = np.imag if c['reim'] == 'imag' else np.real
    if c['cvar'] != 'amp':
        kw['cvar'] = c['cvar']
    if c['error'] != .01:
        kw['error'] = c['error']
    if c['name']:
        kw['name'] = c['name']
    if c['finish'] is not None:
        kw['finish'] = c['finish']
        if c['finish'] == 'fmin':
            import scipy.optimize
            kw['finish'] = scipy.optimize.fmin
    inp = fI[0] if len(fI) == 1 and c['tuple'] else fI

    def get(sp, sh, full=True, verb=0, path=None, **k):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            o = R(fdesign.design, c['n'], sp, sh, inp, plot=0, verb=verb,
                  full_output=full, save=path is not None,
                  **({'path': path} if path else {}), **{**kw, **k})
        return o, out.getvalue()

    sp = tuple(c['sp']) if isinstance(c['sp'], list) else c['sp']
    sh = tuple(c['sh']) if isinstance(c['sh'], list) else c['sh']
    lab = []
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'f') if c['save'] else None
        o, txt = get(sp, sh, c['full'], c['verb'], path)
        (dlf, full), _ = (o, 0) if c['full'] else get(sp, sh)
        if path:
            loaded(c, fdesign, o[0] if c['full'] else o, full, path)
        elif os.listdir(d):
            raise Violation('saved although not asked')
        if not c['full']:
            same(o, dlf, 'full_output')
        elif c['verb'] or c['save']:
            same(dlf, get(sp, sh)[0][0], 'verb/save')
    if c['verb'] == 0 and txt:
        raise Violation(f'verb=0 prints {txt[:100]}')
    for f, l, r_, n in keep:
        if f.lhs is not l or f.rhs is not r_ or f.name != n:
            raise Violation('the provided pairs were altered')

    # The grid
    gs, gh = grid(c['sp']), grid(c['sh'])
    if full[2].shape != (2, gs.size, gh.size) or full[3].shape != (
            gs.size, gh.size):
        raise Violation(f'grid of shapes {full[2].shape} {full[3].shape}')
    if not (np.allclose(full[2][0], gs[:, None]+0*gh, 1e-12, 1e-13) and
            np.allclose(full[2][1], gh+0*gs[:, None], 1e-12, 1e-13)):
        raise Violation(f'grid {full[2]} instead of {gs}, {gh}')
    if full[4] != (c['cvar'] == 'r'):
        raise Violation(f'flag {full[4]} for {c["cvar"]}')

    # The best of it
    if not c['finish']:
        i = np.unravel_index(np.argmin(full[3]), full[3].shape)
        if not (full[3][i] == full[1] or np.isnan(full[1])) or (
                full[0][0] != full[2][0][i] or full[0][1] != full[2][1][i]):
            raise Violation(f'best {full[0]}, {full[1]} of {full[3]}')
    elif not full[1] <= full[3].min()*(1+1e-12) and np.isfinite(
            full[3].min()):
        raise Violation(f'finish gets worse: {full[1]} of {full[3].min()}')

    # The filter
    want = np.exp(full[0][0]*(np.arange(c['n'])-c['n']//2)+full[0][1])
    if not np.allclose(dlf.base, want, 1e-12, 0):
        raise Violation(f'base {dlf.base} instead of {want}')
    if np.ndim(dlf.factor) > 1 or abs(np.squeeze(
            dlf.factor)-np.exp(full[0][0])) > 1e-12*np.exp(full[0][0]):
        raise Violation(f'factor {dlf.factor}')
    nm = (c['name'] or f'dlf_{c["n"]}').split('.')[0]
    if dlf.name != nm:
        raise Violation(f'name {dlf.name} instead of {nm}')
    for k in ('j0', 'j1', 'sin', 'cos', 'abc', 'j2'):
        if hasattr(dlf, k) != (k in [f.name for f in fI]):
            raise Violation(f'{k} appears or is missing')
    for n, a, b, s, y in residual(dlf, fI, c['rdef'], reim):
        if not a <= b*(1+1e-6)+1e-12*(s+y):
            raise Violation(f'{n}: residual {a}, possible {b} ({s})')

    # The objective: of the returned filter, and all over the grid
    pairs = [pair(p) for p in (c['fI'] if fC is None or (
        c['share'] and fC) else c['fC'])]
    val, soft = goal(dlf, pairs, r, c['error'], c['cvar'])
    if not soft and not np.isclose(val, full[1], 1e-7, 0):
        raise Violation(f'objective {full[1]}, should be {val}')
    if np.isfinite(val):
        lab.append(f'{c["cvar"]} {gs.size > 1}{gh.size > 1}')
    if full[3].size > 1:
        i = tuple(int(x) for x in (full[3].shape[0]-1, full[3].shape[1]//2))
        one, f1 = get(float(full[2][0][i]), float(full[2][1][i]),
                      finish=None)[0]
        v1, soft = goal(one, pairs, r, c['error'], c['cvar'])
        if not soft and not np.isclose(v1, full[3][i], 1e-7, 0):
            raise Violation(f'{i}: alone {v1}, in the grid {full[3][i]}')
    return lab


def same(a, b, what):
    for k in ('base', 'factor', 'j0', 'j1', 'sin', 'cos', 'abc'):
        x, y = getattr(a, k, None), getattr(b, k, None)
        if (x is None) != (y is None) or x is not None and not np.allclose(
                x, y, 1e-12, 0) and k in ('base', 'factor'):
            raise Violation(f'{what} matters for {k}')


def loaded(c, fdesign, dlf, full, path):
    name = c['name'] or f'dlf_{c["n"]}'
    custom = ['abc'] if hasattr(dlf, 'abc') else None
    f = R(fdesign.load_filter, name, path=path, filter_coeff=custom)
    g = R(fdesign.load_filter, name, True, path, custom)
    if c['full']:
        g, out = g
        for x, y in zip(out[:4], full[:4]):
            if not np.array_equal(x, y, equal_nan=True) or np.shape(
                    x) != np.shape(y):
                raise Violation(f'loaded {x} instead of {y}')
        if int(out[4]) != full[4]:
            raise Violation(f'loaded flag {out[4]} instead of {full[4]}')
    for o in (f, g):
        for k in ('base', 'j0', 'j1', 'sin', 'cos', 'abc'):
            if hasattr(dlf, k) != hasattr(o, k) or hasattr(
                    dlf, k) and not np.array_equal(
                        getattr(dlf, k), getattr(o, k), equal_nan=True):
                raise Violation(f'loaded {k}')
    want = ['base']+[k for k in ('j0', 'j1', 'sin', 'cos', 'abc')
                     if hasattr(dlf, k)]
    n = name.split('.')[0]
    files = [f'{n}_{k}.txt' for k in want]
    if c['full']:
        files.append(f'{n}_full.txt' + ('.gz' if '.' in name else ''))
    if sorted(os.listdir(path)) != sorted(files):
        raise Violation(f'files {sorted(os.listdir(path))}')


@st.composite
def scase(draw):
    ns, nh = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    v = st.one_of(gen.pm(1e-300, 1e300), st.sampled_from(
        [float('inf'), 0., 1/3]))
    n = draw(st.integers(2, 9))
    return {'n': n, 'name': draw(st.sampled_from(['a', 'b_1', 'c.gz'])),
            'base': [draw(gen.lg(1e-6, 1e6)) for _ in range(n)],
            'j': [[draw(v) for _ in range(n)] for _ in range(2)],
            'k': draw(st.sampled_from([['j0'], ['j0', 'j1'], ['sin'],
                                       ['xyz'], ['cos', 'q']])),
            'grid': [[[draw(v) for _ in range(nh)] for _ in range(ns)]
                     for _ in range(3)],
            'best': [draw(v), draw(v)], 'min': draw(v),
            'flag': draw(st.integers(0, 1)), 'full': draw(st.booleans()),
            'rel': draw(st.booleans()), 'bare': draw(st.booleans())}


@facet('saving', scase(), quick=1000, shards=2)
def saving(c):
    from empymod.scripts import fdesign
    from empymod.filters import DigitalFilter
    f = DigitalFilter(c['name'].split('.')[0], filter_coeff=c['k'])
    f.base = np.array(c['base'])
    for k, v in zip(c['k'], c['j']):
        setattr(f, k, np.array(v))
    full = (np.array(c['best']), np.float64(c['min']) if c['bare'] else
            np.array(c['min']), np.array(c['grid'][:2]),
            np.array(c['grid'][2]), c['flag'])
    keep = copy.deepcopy(full)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d)
            p = 'x/y' if c['rel'] else os.path.join(d, 'z')
            R(fdesign.save_filter, c['name'], f, full if c['full'] else None,
              path=p)
            out = R(fdesign.load_filter, c['name'], True, p, c['k'])
            one = R(fdesign.load_filter, c['name'], path=p,
                    filter_coeff=c['k'])
        finally:
            os.chdir(cwd)
    if c['full']:
        out, o = out
        for i, (x, y) in enumerate(zip(o, keep)):
            if np.shape(x) != np.shape(y) or not np.array_equal(x, y):
                raise Violation(f'part {i}: {x} instead of {y}')
        if len(o) != 5:
            raise Violation(f'{len(o)} parts')
        if not all(np.array_equal(x, y) for x, y in zip(full, keep)):
            raise Violation('input altered')
    for o in (out, one):
        for k in ['base']+c['k']:
            if not np.array_equal(getattr(f, k), getattr(o, k)):
                raise Violation(f'{k} differs')
    return [c['name'], f'{len(c["grid"][0])}x{len(c["grid"][0][0])}']
