import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import gen, warm as _warm
from vf.core import facet, Violation, R

ID = 'D01'
TITLE = 'Filters are those of the library and survive saving and loading'
RULE = ('All filters of the library in random order and through all accesses; '
        'random own filters of any length, name, coefficients and values, '
        'saved and loaded through random paths and over existing files; both '
        'used in calls and on transform pairs. Oracle: libdlf, the bits of '
        'the saved values, closed forms. Non-trivial: two or more points.')
ASSUMPTIONS = ['libdlf holds the published values.']


def warm():
    _warm.kernel(laplace=False)


def names():
    import libdlf
    return {'Hankel': list(libdlf.hankel.__all__),
            'Fourier': list(libdlf.fourier.__all__)}


HN = ['anderson_801_1982', 'gupt_61_1997', 'gupt_120_1997', 'gupt_47_1997',
      'gupt_140_1997', 'kong_61_2007b', 'kong_121_2007', 'kong_241_2007',
      'key_101_2009', 'key_201_2009', 'key_401_2009', 'key_51_2012',
      'key_101_2012', 'key_201_2012', 'wer_201_2018', 'wer_2001_2018']


@facet('library', st.lists(st.tuples(
    st.sampled_from(['Hankel', 'Fourier']), st.integers(0, 100),
    st.sampled_from(['attr', 'getattr', 'twice', 'fresh'])), min_size=1,
    max_size=12), quick=600, thorough=5000)
def library(c):
    import libdlf
    from empymod import filters
    objs = {'Hankel': filters.Hankel(), 'Fourier': filters.Fourier()}
    lab = []
    nm = names()
    for kind, i, how in c:
        lib = getattr(libdlf, kind.lower())
        if list(objs[kind].available) != nm[kind]:
            raise Violation(f'{kind}.available: {objs[kind].available}')
        name = nm[kind][i % len(nm[kind])]
        o = getattr(filters, kind)() if how == 'fresh' else objs[kind]
        f = R(getattr, o, name)
        if how == 'twice' and getattr(o, name) is not f:
            raise Violation(f'{name} is not cached')
        fn = getattr(lib, name)
        vals = ['base'] + list(fn.values)
        data = fn()
        if f.name != name or f.savename != name:
            raise Violation(f'name of {name}: {f.name}, {f.savename}')
        for v, d in zip(vals, data):
            if not np.array_equal(getattr(f, v), d):
                raise Violation(f'{kind} {name}: {v} differs from the library')
        for v in ('j0', 'j1', 'sin', 'cos'):
            if hasattr(f, v) != (v in vals):
                raise Violation(f'{name}: {v} {"missing" if v in vals else ""}')
        fac = f.base[1]/f.base[0]
        if np.shape(f.factor) != (1,) or abs(f.factor[0]-fac) > 1e-14*fac*10:
            raise Violation(f'factor of {name}: {f.factor} instead of {fac}')
        lab.append(name)
    for k in ('Hankel', 'Fourier'):
        try:
            getattr(objs[k], 'key_202_2009')
        except AttributeError:
            continue
        raise Violation('unknown filter without an error')
    return sorted(set(lab))


ident = st.text(alphabet='abcdefghijklmnopqrstuvwxyzABC_0123456789-', min_size=1,
                max_size=12)
val = st.one_of(gen.pm(1e-12, 1e3), st.floats(
    allow_nan=False, allow_infinity=False), st.sampled_from(
        [0., -0., 1/3, 5e-324, 1.7e308, -1e-300]))


@st.composite
def fcase(draw):
    n = draw(st.integers(2, 12))
    co = draw(st.lists(st.sampled_from(['j0', 'j1', 'sin', 'cos']),
                       unique=True, max_size=4))
    own = draw(st.lists(st.sampled_from(['j2', 'abc', 'tan', 'j', 'base2']),
                        unique=True, max_size=2))
    return {'n': n, 'name': draw(ident),
            'save': draw(st.one_of(st.none(), ident)),
            'co': co, 'own': own,
            'v': [[draw(val) for _ in range(n)] for _ in co+own],
            'base': [draw(gen.lg(1e-8, 1e8)) for _ in range(n)],
            'path': draw(st.sampled_from(['new', 'abs', 'nested', 'rel',
                                          'default', 'default'])),
            'over': draw(st.booleans()), 'int': draw(st.booleans()),
            'rev': draw(st.booleans())}


@facet('files', fcase(), quick=1500, shards=2)
def files(c):
    from empymod.filters import DigitalFilter
    f = R(DigitalFilter, c['name'], c['save'], c['own'] or None)
    f.base = np.array(c['base'])
    f.factor = np.array([3.])
    for k, v in zip(c['co']+c['own'], c['v']):
        x = np.array(v)
        setattr(f, k, x[::-1] if c['rev'] else x)
    save = c['save'] or c['name']
    if f.savename != save or f.name != c['name']:
        raise Violation(f'names {f.name}, {f.savename}')
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d)
            p = {'new': os.path.join(d, 'x'), 'abs': d,
                 'nested': os.path.join(d, 'a', 'b', 'c'), 'rel': 'y/z',
                 'default': None}[c['path']]
            kw = {} if p is None else {'path': p}
            real = os.path.join(d, p or 'filters')
            if c['over']:
                g = DigitalFilter('other', save, c['own'] or None)
                g.base = np.arange(1., 40.)
                for k in c['co']+c['own']:
                    setattr(g, k, np.arange(2., 41.))
                R(g.tofile, **kw)
            R(f.tofile, **kw)
            want = sorted(f'{save}_{k}.txt' for k in
                          ['base'] + c['co'] + c['own'])
            if sorted(os.listdir(real)) != want:
                raise Violation(f'files {sorted(os.listdir(real))}, not {want}')
            g = DigitalFilter(save, filter_coeff=c['own'] or None)
            R(g.fromfile, **kw)
            h = DigitalFilter('n', save, c['own'] or None)
            R(h.fromfile, **kw)
        finally:
            os.chdir(cwd)
    for o in (g, h):
        for k in ['base'] + c['co'] + c['own']:
            if not np.array_equal(getattr(o, k).view('u8'),
                                  np.ascontiguousarray(
                                      getattr(f, k)).view('u8')):
                raise Violation(f'{k}: {getattr(o, k)[:4]} instead of '
                                f'{getattr(f, k)[:4]}')
        for k in ('j0', 'j1', 'sin', 'cos', 'j2', 'abc', 'tan', 'j', 'base2'):
            if hasattr(o, k) != (k in c['co']+c['own']):
                raise Violation(f'{k} appears or disappears')
        fac = np.around([c['base'][1]/c['base'][0]], 15)
        if not np.array_equal(o.factor, fac):
            raise Violation(f'factor {o.factor} instead of {fac}')
        if o.filter_coeff != ['j0', 'j1', 'sin', 'cos'] + c['own']:
            raise Violation(f'coefficients {o.filter_coeff}')
    return [c['path'], f'{len(c["co"])}+{len(c["own"])}']


@st.composite
def ucase(draw):
    return {'h': draw(st.sampled_from([n for n in HN if n[:4] != 'gupt'])),
            'res': draw(gen.lg(.5, 50)), 'off': draw(gen.lg(50, 500)),
            'ab': draw(st.sampled_from(gen.ABS34)),
            'ppd': draw(st.sampled_from([0, 0, -1, 10])),
            'm': draw(st.booleans())}


@facet('used', ucase(), quick=150)
def used(c):
    """By name, by instance, and loaded from files: the same field."""
    import empymod
    from empymod.filters import DigitalFilter, Hankel
    f = getattr(Hankel(), c['h'])
    with tempfile.TemporaryDirectory() as d:
        f.tofile(d)
        g = DigitalFilter(c['h'])
        g.fromfile(d)
    if not np.array_equal(g.factor, f.factor):
        raise Violation(f'factor {g.factor} instead of {f.factor}')
    out = []
    for x in (c['h'], f, g):
        out.append(np.array(R(
            empymod.dipole, [0, 0, 10], [[c['off'], c['off']*2], [0, 5], 20],
            [0, 50] if c['m'] else [], [1e8, 1, c['res']] if c['m'] else
            [c['res']], 1., ab=c['ab'], verb=0, ht='dlf',
            htarg={'dlf': x, 'pts_per_dec': c['ppd']})))
    if not (np.array_equal(out[0], out[1]) and np.array_equal(out[0], out[2])):
        raise Violation(f'{c["h"]}: by name {out[0]}, by instance {out[1]}, '
                        f'loaded {out[2]}')
    return c['h']


# Accuracy of the filters for smooth (Gaussian) pairs in the centre of their
# range; five or more times the largest error of thousands of trials.
PREC = {
    'Hankel': {
        'anderson_801_1982': 3e-7, 'gupt_61_1997': 4e-5, 'gupt_120_1997': 2e-6,
        'gupt_47_1997': 1e-4, 'gupt_140_1997': 4e-6, 'kong_61_2007b': 3e-2,
        'kong_121_2007': 5e-7, 'kong_241_2007': 3e-12, 'key_101_2009': 1e-6,
        'key_201_2009': 1e-13, 'key_401_2009': 1e-13, 'key_51_2012': 3e-4,
        'key_101_2012': 3e-5, 'key_201_2012': 3e-8, 'wer_201_2018': 1e-13,
        'wer_2001_2018': 3e-4},
    'Fourier': {
        'key_81_2009': 2e-5, 'key_241_2009': 6e-9, 'key_601_2009': 4e-10,
        'key_101_2012': 1e-5, 'key_201_2012': 3e-7, 'grayver_50_2021': 3e-3,
        'wer_201_2018': 1e-12, 'wer_101_2020a': 2e-9, 'wer_101_2020b': 1e-6}}


@st.composite
def acase(draw):
    kind = draw(st.sampled_from(['Hankel', 'Fourier']))
    name = draw(st.sampled_from(sorted(PREC[kind])))
    return {'kind': kind, 'name': name, 'a': draw(gen.lg(.5, 2.)),
            'r': draw(st.lists(gen.lg(.2, 3.), min_size=1, max_size=6))}


@facet('accuracy', acase(), quick=2500)
def accuracy(c):
    """Transform pairs through transform.dlf."""
    from empymod import transform, filters
    f = getattr(getattr(filters, c['kind'])(), c['name'])
    a = c['a']
    r = a*np.array(c['r'])
    k = f.base/r[:, None]
    g = np.exp(-r*r/4/a)
    e = np.exp(-a*k*k)
    want = {'j0': g/2/a, 'j1': r/4/a**2*g,
            'sin': np.sqrt(np.pi/a)*r/4/a*g, 'cos': np.sqrt(np.pi/a)/2*g}
    lab = []
    for t, w in want.items():
        if not hasattr(f, t):
            continue
        if t == 'j0':
            x = R(transform.dlf, ((k*e+0j), None, None), k, r, f, 0,
                  ang_fact=np.ones(r.size), ab=33)
        elif t == 'j1':
            x = R(transform.dlf, (None, (k*k*e+0j), None), k, r, f, 0,
                  ang_fact=np.ones(r.size), ab=13)
        else:
            x = R(transform.dlf, -1j*k*e if t == 'sin' else e+0j, k, r, f, 0,
                  kind=t)
        x = np.ravel(x)
        if x.shape != r.shape or not np.all(
                abs(x-w) <= PREC[c['kind']][c['name']]):
            raise Violation(f'{c["kind"]} {c["name"]} {t} a={a} r={r}: {x} '
                            f'instead of {w}')
        lab.append(f'{c["name"]} {t}')
    return lab
