import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen, warm as _warm
from vf.ref import MU0, EPS0
from vf.core import facet, Violation, R

ID = 'M01'
TITLE = 'TM/TE split: each mode is its physical part, together the total field'
RULE = ('Random models, depths within one layer (on interfaces too), several '
        'sources and receivers, bad input. Oracle: own transmission line '
        'with the documented filter, without the contribution at zero '
        'wavenumber; dipole for the sum. Non-trivial: several terms count.')
ASSUMPTIONS = ['The filter key_201_2012 is the documented transform.']


def warm():
    _warm.kernel(laplace=False)


@st.composite
def case(draw):
    n = draw(st.integers(2, 6))
    up = draw(st.booleans()) and draw(st.booleans())
    th = [draw(gen.lg(5., 300.)) for _ in range(n-2)]
    d0 = draw(st.floats(-100, 1000))
    depth = np.round(d0+np.cumsum(np.r_[0, th]), 1)
    for i in range(1, n-1):   # zero thickness, rarely
        if draw(st.integers(0, 25)) == 0 and i > 1:
            depth[i] = depth[i-1]
    ok = [i for i in range(n) if i in (0, n-1) or depth[i] > depth[i-1]]
    lay = draw(st.sampled_from(ok))
    top = depth[0]-200. if lay == 0 else depth[lay-1]
    bot = depth[-1]+200. if lay == n-1 else depth[lay]
    zs, zr = [round(top+draw(st.floats(.05, 1.))*(bot-top), 2)
              for _ in range(2)]
    # Exactly on the interface below belongs to the layer above
    zs = bot if draw(st.integers(0, 9)) == 0 and lay < n-1 else min(zs, bot)
    zr = bot if draw(st.integers(0, 9)) == 0 and lay < n-1 else min(zr, bot)
    zs = max(zs, np.nextafter(top, np.inf))
    zr = max(zr, np.nextafter(top, np.inf))
    k, m = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    xy = st.floats(-1500, 1500).map(lambda x: round(x, 1))
    c = {'n': n, 'depth': depth.tolist(), 'lay': lay, 'zs': float(zs),
         'zr': float(zr),
         'src': [[draw(xy) for _ in range(k)], [draw(xy) for _ in range(k)]],
         'rec': [[draw(xy) for _ in range(m)], [draw(xy) for _ in range(m)]],
         'res': [draw(gen.lg(.1, 1000.)) for _ in range(n)],
         'aniso': [draw(gen.lg(.5, 3.)) for _ in range(n)] if draw(
             st.booleans()) else None,
         'eperm': [draw(gen.lg(1., 80.)) for _ in range(n)] if draw(
             st.booleans()) else None,
         'mperm': [draw(gen.lg(1., 4.)) for _ in range(n)] if draw(
             st.booleans()) else None,
         'f': draw(gen.lg(1e-3, 1e4)), 'up': up,
         'lists': draw(st.booleans()), 'verb': 0}
    return c


def line(depth, Z, G, lay, zs, zr, n):
    """Contributions [--, -+, +-, ++, direct] to the voltage of a line.

    Z, G: impedance and propagation of each layer, (layer, ...).
    """
    def down(i):   # voltage reflection at the bottom of layer i
        r = 0*Z[0]
        for j in range(n-2, i-1, -1):
            g = (Z[j+1]-Z[j])/(Z[j+1]+Z[j])
            if j+1 < n-1:
                r = r*np.exp(-2*G[j+1]*(depth[j+1]-depth[j]))
            r = (g+r)/(1+g*r)
        return r

    def up(i):     # at the top of layer i
        r = 0*Z[0]
        for j in range(1, i+1):
            g = (Z[j-1]-Z[j])/(Z[j-1]+Z[j])
            if j-1 > 0:
                r = r*np.exp(-2*G[j-1]*(depth[j-1]-depth[j-2]))
            r = (g+r)/(1+g*r)
        return r

    Rb, Rt = down(lay), up(lay)
    g = G[lay]
    zb = depth[lay] if lay < n-1 else None
    zt = depth[lay-1] if lay > 0 else None
    o = 0*g
    M, both, bb, tt = 1, [o, o], o, o
    size = [o]*5   # magnitudes for perfect reflection: rounding
    if zb is not None and zt is not None:
        d = zb-zt
        M = 1-Rb*Rt*np.exp(-2*g*d)
        both = [Rb*Rt*np.exp(-g*(2*d-s*(zr-zs)))/M for s in (1, -1)]
        size = [abs(np.exp(-g*(2*d-s*(zr-zs)))/M) for s in (1, -1)]
        size = [size[0], o, o, size[1], o]
    if zb is not None:
        bb = Rb*np.exp(-g*(2*zb-zr-zs))/M
        size[1] = abs(np.exp(-g*(2*zb-zr-zs))/M)
    if zt is not None:
        tt = Rt*np.exp(-g*(zr+zs-2*zt))/M
        size[2] = abs(np.exp(-g*(zr+zs-2*zt))/M)
    return [Z[lay]*x for x in (both[0], bb, tt, both[1],
                               np.exp(-g*abs(zr-zs)))], [abs(Z[lay])*x for x in size]


def modes(c, filt, off, ang):
    mu_0, epsilon_0 = MU0, EPS0
    w = 2j*np.pi*c['f']
    one = np.ones(c['n'])
    res = np.array(c['res'])
    an = one if c['aniso'] is None else np.array(c['aniso'])
    ep = one if c['eperm'] is None else np.array(c['eperm'])
    mp = one if c['mperm'] is None else np.array(c['mperm'])
    eH = 1/res+w*epsilon_0*ep
    eV = 1/(res*an**2)+w*epsilon_0*ep
    zz = w*mu_0*mp
    k = filt.base/off
    c2 = np.cos(2*ang)
    out, sc = [], []
    for tm in (True, False):
        def lin(k):
            if tm:
                G = np.sqrt((eH/eV)[:, None]*k**2+(zz*eH)[:, None])
                Z = G/eH[:, None]
            else:
                G = np.sqrt(k**2+(zz*eH)[:, None])
                Z = zz[:, None]/G
            return line(np.array(c['depth']), Z, G, c['lay'], c['zs'],
                        c['zr'], c['n'])
        (v, u), v0 = lin(k), lin(np.zeros(1))[0]
        s = -1 if tm else 1
        q = (c2+1)/2 if tm else (c2-1)/2
        o = []
        for i in range(5):
            j1 = s*v[i] @ filt.j1/off
            if i < 4:   # without the part at zero wavenumber
                j1 = j1-s*v0[i][0]/off
            j0 = s*(v[i]*k) @ filt.j0/off
            o.append((-c2*j1/off+q*j0)/(4*np.pi))
            m = abs(v[i])+1e-4*u[i]
            sc.append((np.sum(abs(m*filt.j1))/off**2 + np.sum(
                abs(m*k*filt.j0))/off)/4/np.pi)
        out.append(o)
    return out, np.array(sc).reshape(2, 5)


def call(fn, c, **kw):
    def L(x):
        return x if c['lists'] else np.array(x)
    s = [L(c['src'][0]), L(c['src'][1]), c['zs']]
    r = [L(c['rec'][0]), L(c['rec'][1]), c['zr']]
    if len(c['src'][0]) == 1 and c['lists']:
        s = [c['src'][0][0], c['src'][1][0], c['zs']]
    d, res = c['depth'], c['res']
    args = {'depth': L(d), 'res': L(res), 'freqtime': c['f']}
    for k in ('aniso', 'eperm', 'mperm'):
        if c[k] is not None:
            args[k] = L(c[k])
    keep = copy.deepcopy([s, r, args])
    args.update(kw)
    o = R(fn, s, r, verb=c['verb'], **args)
    for x, y in zip([*s, *r, *[args[k] for k in keep[2]]],
                    [*keep[0], *keep[1], *keep[2].values()]):
        if not np.array_equal(x, y):
            raise Violation(f'input altered: {x} was {y}')
    return o


@facet('modes', case(), quick=1200, shards=4)
def split(c):
    from empymod.scripts import tmtemod
    from empymod.filters import Hankel
    filt = Hankel().key_201_2012
    TM, TE = call(tmtemod.dipole, c)
    ns, nr = len(c['src'][0]), len(c['rec'][0])
    shape = np.squeeze(np.zeros((1, nr, ns))).shape
    if len(TM) != 5 or len(TE) != 5:
        raise Violation(f'{len(TM)} and {len(TE)} contributions')
    if any(np.shape(x) != shape for x in [*TM, *TE]):
        raise Violation(f'shapes {[np.shape(x) for x in TM]}, not {shape}')
    if any(np.isnan(x).any() for x in [*TM, *TE]):
        raise Violation('nan')
    TM, TE = [np.reshape(x, (nr, ns)) for x in TM], [
        np.reshape(x, (nr, ns)) for x in TE]
    names = ['--', '-+', '+-', '++', 'direct']
    cnt = set()
    for j in range(ns):
        for i in range(nr):
            dx = c['rec'][0][i]-c['src'][0][j]
            dy = c['rec'][1][i]-c['src'][1][j]
            off = max(np.hypot(dx, dy), 1e-3)
            if off < 1.:
                continue
            want, sc = modes(c, filt, off, np.arctan2(dy, dx))
            for k in range(2):
                for q in range(5):
                    got = (TM, TE)[k][q][i, j]
                    tol = 1e-9*sc[k, q]
                    if not abs(got-want[k][q]) <= tol+1e-250:
                        raise Violation(
                            f'{("TM", "TE")[k]}{names[q]} rec {i} src {j}: '
                            f'{got} instead of {want[k][q]} ({sc[k, q]})')
                    if q < 4 and abs(got) > 1e-6*sc[:, q].max() > 0:
                        cnt.add(names[q])
    return sorted(cnt) or None


@facet('sum', case(), quick=500, shards=2)
def total(c):
    import empymod
    from empymod.scripts import tmtemod
    TM, TE = call(tmtemod.dipole, c)
    d = dict(c)
    eperm, mperm = d.pop('eperm'), d.pop('mperm')
    kw = {}
    if eperm is not None:
        kw.update(epermH=eperm, epermV=eperm)
    if mperm is not None:
        kw.update(mpermH=mperm, mpermV=mperm)
    d['eperm'] = d['mperm'] = None
    tot = np.array(call(empymod.dipole, d, ab=11, xdirect=False, ht='dlf',
                        htarg={'dlf': 'key_201_2012', 'pts_per_dec': 0},
                        **kw))
    got = sum(TM)+sum(TE)
    big = sum(abs(x) for x in [*TM, *TE])
    # The filter loses digits where wavenumbers are large: offsets tiny.
    sc = np.zeros((len(c['rec'][0]), len(c['src'][0])))
    from empymod.filters import Hankel
    for j in range(sc.shape[1]):
        for i in range(sc.shape[0]):
            off = max(np.hypot(c['rec'][0][i]-c['src'][0][j],
                               c['rec'][1][i]-c['src'][1][j]), 1e-3)
            sc[i, j] = modes(c, Hankel().key_201_2012, off, 0.)[1].sum()
    sc = np.squeeze(sc)
    # The parts at zero wavenumber of the modes cancel each other.
    if np.shape(got) != tot.shape or not np.all(abs(got-tot) <= 1e-9*sc):
        raise Violation(f'sum {got} instead of {tot} (of {big}, {sc})')
    return f'layer {c["lay"]} of {c["n"]}'


@st.composite
def bad(draw):
    c = draw(case())
    c['bad'] = draw(st.sampled_from(['layer', 'one', 'freq', 'size', 'shape',
                                     'order']))
    return c


@facet('refused', bad(), quick=200)
def refused(c):
    from empymod.scripts import tmtemod
    b = c['bad']
    c = copy.deepcopy(c)
    if b == 'layer':
        c['zr'] = (c['depth'][-1]+10 if c['lay'] < c['n']-1
                   else c['depth'][0]-10)
    elif b == 'one':
        c.update(depth=[], res=c['res'][:1], aniso=None, eperm=None,
                 mperm=None)
    elif b == 'freq':
        c['f'] = [c['f'], 2*c['f']]
    elif b == 'size':
        c['res'] = c['res'][:-1]
    elif b == 'shape':
        c['rec'] = [c['rec'][0]+[1., 2.], c['rec'][1]]
        c['rec'][1] = c['rec'][1]+[3.]
    elif b == 'order':
        if c['n'] < 4:
            return None
        c['depth'] = [c['depth'][1]+1]+c['depth'][1:]
        c['depth'] = [c['depth'][0], c['depth'][0]-5, c['depth'][0]+5] + [
            c['depth'][0]+10*i for i in range(1, c['n']-3)]
    try:
        call(tmtemod.dipole, c)
    except Violation as e:
        if 'ValueError' in str(e):
            return b
        raise
    raise Violation(f'{b}: not refused')
