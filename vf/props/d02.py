import numpy as np
from hypothesis import strategies as st

from vf import gen, warm as _warm
from vf.core import facet, Violation, R

ID = 'D02'
TITLE = 'Transform pairs of fdesign are transform pairs'
RULE = ('The analytical pairs with random parameters, the numerical pairs '
        'with random models, at random arguments (numbers, vectors, '
        'matrices). Oracle: numerical integration of the left-hand side. '
        'Non-trivial: the right-hand side is not negligible.')
ASSUMPTIONS = []

GX, GW = np.polynomial.legendre.leggauss(16)


def warm():
    _warm.kernel(laplace=False)


def quad(fun, r, end, scale):
    """int_0^end fun(l, l*r) dl with panels resolving scale and 1/r."""
    from scipy.special import j0  # noqa: F401
    h = min(scale/2, 2/r)
    # Small panels towards zero for the roots at the origin.
    m = int(np.ceil(end/h))
    e = np.r_[0, np.geomspace(h*1e-6, h, 12), np.linspace(h, max(end, 2*h),
                                                           m+1)[1:]]
    a, b = e[:-1, None], e[1:, None]
    x = ((a+b)/2+(b-a)/2*GX).ravel()
    w = ((b-a)/2*GW).ravel()
    return fun(x), x, w


KIND = {'j0': 5, 'j1': 5, 'sin': 3, 'cos': 3}


@st.composite
def acase(draw):
    name = draw(st.sampled_from([f'{k}_{i+1}' for k, n in KIND.items()
                                 for i in range(n)]))
    c = {'name': name}
    if name in ('j0_4', 'j0_5', 'j1_4', 'j1_5'):
        c['f'] = draw(gen.lg(1e-2, 1e4))
        c['rho'] = draw(gen.lg(1e-1, 1e3))
        c['z'] = draw(gen.pm(1., 500.))
        s = abs(c['z'])
    else:
        c['a'] = draw(gen.lg(.1, 10.))
        s = c['a']
    if name[1] in '01' and name[0] == 'j':
        s = s if name[3] not in '1' else np.sqrt(c['a'])
    if name in ('sin_3', 'cos_3'):
        s = 1/c['a']
    c['r'] = draw(st.lists(gen.lg(s*.02, s*8), min_size=1, max_size=4))
    c['pos'] = draw(st.booleans())
    c['shape'] = draw(st.sampled_from(['array', 'array', 'number', '2d']))
    c['inv'] = draw(st.booleans())
    c['defaults'] = draw(st.integers(0, 9)) == 0
    return c


@facet('analytical', acase(), quick=1000, shards=2)
def analytical(c):
    from scipy import integrate, special
    from empymod.scripts import fdesign
    name = c['name']
    fn = getattr(fdesign, name)
    c = dict(c)
    if c['defaults']:
        c.update({'f': 1, 'rho': .3, 'z': 50} if 'f' in c else {'a': 1})
        tp = R(fn)
    elif 'f' in c:
        tp = (R(fn, c['f'], c['rho'], c['z']) if c['pos'] else
              R(fn, z=c['z'], f=c['f'], rho=c['rho']))
    else:
        tp = R(fn, c['a']) if c['pos'] else R(fn, a=c['a'])
    kind = name.split('_')[0]
    if tp.name != kind:
        raise Violation(f'{name} is of type {tp.name}')
    r = np.array(c['r'])
    rhs = np.array(R(tp.rhs, r))
    if rhs.shape != r.shape:
        raise Violation(f'{name}: shape {rhs.shape} for {r.shape}')
    # Left and right work for any shape, elementwise
    for f in (tp.lhs, tp.rhs):
        v = np.array(R(f, r))
        o = np.array([R(f, float(x)) for x in r])
        m = np.array(R(f, r[:, None]*np.ones((1, 2))))
        if not (np.allclose(v, o, 1e-13, 0) and np.allclose(
                m, v[:, None]*np.ones((1, 2)), 1e-13, 0)):
            raise Violation(f'{name}: depends on the shape of its argument')
    if 'a' in c and kind in ('sin', 'cos'):
        ti = R(fn, c['a'], True) if c['pos'] else R(
            fn, inverse=True, a=c['a'])
        if ti.name != kind or not np.array_equal(
                ti.lhs(r), tp.rhs(r)) or not np.array_equal(
                    ti.rhs(r), tp.lhs(r)):
            raise Violation(f'{name}: inverse')
    lab = []
    bess = {'j0': special.j0, 'j1': special.j1, 'sin': np.sin, 'cos': np.cos}
    for x, got in zip(r, rhs):
        if name in ('sin_3', 'cos_3'):
            want = integrate.quad(lambda q: float(tp.lhs(q)), 0, np.inf,
                                  weight=kind, wvar=x, limlst=400)[0]
            sc = max(abs(want), tp.rhs(0)*1e-3)
            tol = 1e-6
        else:
            if 'f' in c:
                z = abs(c['z'])
                scale = 1/z
                gam = abs(np.sqrt(2*np.pi*4e-7*np.pi*c['f']/c['rho']))
                end = 45/z+2*gam
                scale = min(scale, max(gam, 1e-3/z))
            elif name in ('sin_1', 'cos_1'):
                end, scale = 7/c['a'], 1/c['a']
            elif name[3] == '1':
                end, scale = 7/np.sqrt(c['a']), 1/np.sqrt(c['a'])
            else:
                end, scale = 45/c['a'], 1/c['a']
            v, q, w = quad(tp.lhs, x, end, scale)
            want = np.sum(v*bess[kind](q*x)*w)
            sc = np.sum(abs(v*bess[kind](q*x))*w)
            tol = 1e-9
        if not abs(got-want) <= tol*sc:
            raise Violation(f'{name} {c} r={x}: {got} instead of {want}')
        if abs(want) > 1e-4*sc:
            lab.append(name)
    return lab


@st.composite
def ncase(draw):
    n = draw(st.integers(1, 3))
    iso = draw(st.integers(0, 3)) == 0
    z = [draw(gen.lg(5., 80.)) for _ in range(n-1)]
    m = {'depth': list(np.round(np.cumsum(z), 1)),
         'res': [draw(gen.lg(.3, 100.)) for _ in range(n)]}
    if not iso:
        for k, lo, hi in (('aniso', .5, 2.), ('epermH', 1., 50.),
                          ('epermV', 1., 50.), ('mpermH', 1., 2.),
                          ('mpermV', 1., 2.)):
            if draw(st.booleans()):
                m[k] = [draw(gen.lg(lo, hi)) for _ in range(n)]
    zs = draw(gen.lg(1., 100.))-30
    dz = draw(gen.pm(20., 100.))
    t = draw(st.sampled_from(['j0', 'j1', 'j2', ['j0', 'j1'],
                              ['j1', 'j2', 'j0']]))
    return {'m': m, 'zs': round(zs, 1), 'zr': round(zs+dz, 1), 't': t,
            'f': draw(gen.lg(.01, 1000.)),
            'r': [draw(gen.lg(.1, 3.)) for _ in range(2)],
            'pos': draw(st.booleans())}


@facet('numerical', ncase(), quick=60, thorough=1500, shards=3)
def numerical(c):
    from scipy import special
    from empymod.scripts import fdesign
    m = dict(c['m'])
    if not m['depth'] and c['pos']:
        m['depth'] = None
    kw = {'htarg': {'rtol': 1e-9, 'atol': 1e-30, 'nquad': 51, 'maxint': 80}}
    if c['pos']:
        tps = R(fdesign.empy_hankel, c['t'], c['zs'], c['zr'], m.pop('res'),
                c['f'], m.pop('depth'), m.pop('aniso', None), **m, **kw)
    else:
        tps = R(fdesign.empy_hankel, ftype=c['t'], zsrc=c['zs'],
                zrec=c['zr'], freqtime=c['f'], **m, **kw)
    types = c['t'] if isinstance(c['t'], list) else [c['t']]
    if not isinstance(c['t'], list):
        tps = [tps]
    if [t.name for t in tps] != types:
        raise Violation(f'types {[t.name for t in tps]} for {types}')
    dz = abs(c['zs']-c['zr'])
    r = dz*np.array(c['r'])
    lab = []
    for t, tp in zip(types, tps):
        rhs = np.atleast_1d(R(tp.rhs, r))
        for x, got in zip(r, rhs):
            an = np.max(np.array(c['m'].get('aniso', [1.])+[1.]))
            # With anisotropy lambda the TM mode decays as exp(-k*dz/lambda)
            fun = (lambda q: tuple(R(tp.lhs, q))) if t == 'j2' else (
                lambda q: R(tp.lhs, q))
            mu = 1.
            for k in ('mpermH', 'mpermV'):
                v = np.array(c['m'].get(k, [1.]))
                mu = max(mu, v.max()/v.min(), v.max(), 2.)
            end = 36/dz*max(an, mu)
            v, q, w = quad(fun, x, end, 1/dz/4)
            if t == 'j0':
                terms = v*special.j0(q*x)*w
            elif t == 'j1':
                terms = v*special.j1(q*x)*w
            else:
                terms = (v[0]*special.j0(q*x) + v[1]*special.j1(q*x)/x)*w
            want, sc = np.sum(terms), np.sum(abs(terms))
            if not abs(got-want) <= 2e-5*sc:
                raise Violation(f'{t} r={x}: {got} instead of {want}')
            if abs(want) > 1e-2*sc:
                lab.append(f'{t} {len(c["m"]["res"])}')
        # It is the field of that model
        import empymod
        x, ab = {'j0': (.5**.5, 11), 'j1': (1., 31), 'j2': (.5**.5, 12)}[t]
        y = 0. if t == 'j1' else x
        got = np.atleast_1d(R(
            empymod.dipole, [0, 0, c['zs']], [r*x, r*y, c['zr']], ab=ab,
            freqtime=c['f'], verb=0, ht='qwe', xdirect=True,
            **kw, **c['m']))
        if not np.allclose(got, rhs, 3e-5, 1e-30):
            raise Violation(f'{t}: {rhs} is not the field {got}')
        # Matrices of wavenumbers, as used by design
        k = np.array([[.3, 1., 2.], [.2, .5, 4.]])/dz
        a = R(tp.lhs, k)
        b = [R(tp.lhs, kk) for kk in k]
        for i in range(2 if t == 'j2' else 1):
            aa = a[i] if t == 'j2' else a
            bb = np.array([x[i] for x in b]) if t == 'j2' else np.array(b)
            if not np.allclose(aa, bb, 1e-10, 1e-14*abs(bb).max()):
                raise Violation(f'{t}: lhs of a matrix {aa} instead of {bb}')
    return lab
