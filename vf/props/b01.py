import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, sym, warm as _warm
from vf.core import facet, Violation

ID = 'B01'
TITLE = 'A bipole is the superposition of infinitesimal dipoles'
RULE = ('Random layered models; arbitrarily rotated dipoles and finite '
        'bipoles (also vertical, along the axes, crossing interfaces), '
        'electric, magnetic, loop (b) and current-density (j), strengths of '
        'either sign. Oracle: Gauss-Legendre sum of direction cosines times '
        'the responses of x-, y-, z-directed dipoles; additivity of bipoles '
        'put end to end; reversal of an end-point pair. Non-trivial: '
        'non-zero response.')
ASSUMPTIONS = ['Coordinates of finite bipoles are rounded to 1 mm, hence the '
               'tolerance 1e-6 + 2 mm/distance of the field magnitude.']


def warm():
    _warm.kernel(True)


def axis_angle():
    return st.one_of(st.sampled_from([0., 90., 180., 270., -90., -180., 360.,
                                      450., -450.]),
                     gen.un(-360, 360, 1440))


def dip_angle():
    return st.one_of(st.sampled_from([0., 90., -90., 180., 270.]),
                     gen.un(-180, 180, 720))


TYPES_S = [False, True, 'b']
TYPES_R = [False, True, 'b', 'j']


def direction(azm, dip):
    a, d = np.deg2rad(azm), np.deg2rad(dip)
    return np.array([np.cos(a)*np.cos(d), np.sin(a)*np.cos(d), np.sin(d)])


def kinds(c):
    """Groups of dipole types."""
    mr = c['mrec'] not in (False, 'j')
    return sym.GROUPS[mr, c['msrc'] is not False]


def factor(c, z, which):
    """Factor for loops and current density at that point."""
    m, t = c['m'], c['m'+which]
    if t not in ('b', 'j'):
        return 1.
    i = ref.layer_of(z, m['depth'])
    out = []
    for f in c['f']:
        eh, ev, zh, zv = gen.ez(m, f)
        out.append(zh[i] if t == 'b' else eh[i])
    return np.array(out)


def elem(c, ps, pr, vs, vr):
    """Response of one elementary dipole pair, and the field magnitude."""
    T = sym.tensor(list(ps), list(pr), c['f'], c['m'], kinds(c),
                   xdirect=c['xd'])
    v = 0.
    for ab, x in T.items():
        v = v + vr[(ab//10-1) % 3]*vs[(ab % 10-1) % 3]*x
    s = np.max([np.abs(x) for x in T.values()], axis=0)
    fac = factor(c, ps[2], 'src')*factor(c, pr[2], 'rec')
    return v*fac, s*np.abs(fac)


def run(c, src, rec, **kw):
    import empymod
    return np.atleast_1d(np.asarray(empymod.bipole(
        src, rec, freqtime=c['f'], msrc=c['msrc'], mrec=c['mrec'],
        strength=c['strength'], xdirect=c['xd'], verb=0, **kw,
        **gen.mkw(c['m']))))


@st.composite
def common(draw, **kw):
    c = draw(sym.base(nmin=1, nmax=4, **kw))
    c['msrc'] = draw(st.sampled_from(TYPES_S))
    c['mrec'] = draw(st.sampled_from(TYPES_R))
    c['strength'] = draw(st.sampled_from([0, 1, 2.5, -3, .01]))
    return c


@st.composite
def case_rot(draw):
    c = draw(common(off=(5., 3000.)))
    c['sa'] = [draw(axis_angle()), draw(dip_angle())]
    c['ra'] = [draw(axis_angle()), draw(dip_angle())]
    return c


@facet('rotated', case_rot(), quick=800, shards=4)
def rotated(c):
    p, q = [0., 0., c['zs']], [*c['xy'], c['zr']]
    v = run(c, p + c['sa'], q + c['ra'])
    e, s = elem(c, p, q, direction(*c['sa']), direction(*c['ra']))
    st_ = c['strength'] if c['strength'] != 0 else 1
    sym.same(f"rotated {c['msrc']}->{c['mrec']}", 0, v, e*st_, s*abs(st_),
             1e-7)
    if not np.any(v):
        return None
    return [f"msrc={c['msrc']}", f"mrec={c['mrec']}",
            f"strength={c['strength']}", *sym.labels(c)[:2]]


@st.composite
def seg(draw, ctr):
    """End points of a finite bipole about a centre."""
    how = draw(st.integers(0, 5))
    d = [draw(gen.un(-40, 40)) for _ in range(3)]
    if how == 0:
        d = [0., 0., d[2]]
    elif how == 1:
        d = [d[0], 0., 0.]
    elif how == 2:
        d = [0., d[1], 0.]
    elif how == 3:
        d[2] = 0.
    if np.linalg.norm(d) < 1:
        i = {0: 2, 2: 1}.get(how, 0)
        d[i] = d[i] + 7.
    return [x for a, b in zip(ctr, d) for x in (gen.r6(a-b), gen.r6(a+b))]


def pts(b, n):
    """Positions, weights, direction, length."""
    a = np.array([b[0], b[2], b[4]])
    e = np.array([b[1], b[3], b[5]])
    L = np.linalg.norm(e-a)
    if n < 3:
        x, w = np.zeros(1), np.array([2.])
    else:
        x, w = np.polynomial.legendre.leggauss(n)
    p = (a+e)/2 + np.outer(x/2, e-a)
    return p, w/2, (e-a)/L, L


@st.composite
def case_fin(draw):
    c = draw(common(on_if=False, off=(150., 3000.)))
    c['src'] = draw(seg([0., 0., c['zs']]))
    c['rec'] = draw(seg([*c['xy'], c['zr']]))
    if draw(st.integers(0, 4)) == 0:
        c['src'] = [0., 0., c['zs'], draw(axis_angle()), draw(dip_angle())]
    elif draw(st.integers(0, 4)) == 0:
        c['rec'] = [*c['xy'], c['zr'], draw(axis_angle()), draw(dip_angle())]
    c['ns'] = draw(st.sampled_from([1, 2, 3, 4, 5]))
    c['nr'] = draw(st.sampled_from([1, 2, 3, 4]))
    return c


def _points(b, n):
    if len(b) == 5:
        return np.array([b[:3]]), np.ones(1), direction(*b[3:]), 1.
    return pts(b, n)


@facet('finite', case_fin(), quick=280, shards=5)
def finite(c):
    P, wp, vs, Ls = _points(c['src'], c['ns'])
    Q, wq, vr, Lr = _points(c['rec'], c['nr'])
    for z in (*P[:, 2], *Q[:, 2]):
        if any(abs(z-d) < .01 for d in c['m']['depth']):
            return None
    if any(abs(x-y) < .01 for x in P[:, 2] for y in Q[:, 2]) and abs(
            c['zs'] - c['zr']) > 1e-12:
        return None
    v = run(c, c['src'], c['rec'], srcpts=c['ns'], recpts=c['nr'])
    tot = scl = 0
    for p, w in zip(P, wp):
        for q, u in zip(Q, wq):
            e, s = elem(c, p, q, vs, vr)
            tot = tot + w*u*e
            scl = scl + w*u*s
    fac = c['strength']*Ls*Lr if c['strength'] != 0 else 1.
    # mm-rounding: relative to the distance and to the boundary's distance
    near = min([150.] + [abs(z-d) for z in (*P[:, 2], *Q[:, 2])
                         for d in c['m']['depth']])
    tol = 1e-6 + 2e-3/near
    sym.same(f"finite {c['msrc']}->{c['mrec']} {c['ns']},{c['nr']}", 0, v,
             tot*fac, scl*abs(fac), tol)
    if not np.any(v):
        return None
    return [f"msrc={c['msrc']}", f"mrec={c['mrec']}", f"n={c['ns']},{c['nr']}",
            f"{len(c['src'])},{len(c['rec'])}"]


@st.composite
def case_add(draw):
    c = draw(common(off=(300., 3000.), p=(1e-3, 2.)))
    c['strength'] = draw(st.sampled_from([1, -2.]))
    c['seg'] = draw(seg([0., 0., 0.]))
    c['cut'] = draw(gen.un(.2, .8, 20))
    c['which'] = draw(st.sampled_from(['src', 'rec']))
    c['mrec'] = draw(st.sampled_from([False, True]))
    c['msrc'] = draw(st.sampled_from([False, True]))
    c['oa'] = [draw(axis_angle()), draw(dip_angle())]
    return c


@facet('additive', case_add(), quick=400, shards=3)
def additive(c):
    """A-C = A-B + B-C; C-A = -(A-C); lengths scale with strength != 0."""
    d = c['seg']
    if abs(c['zs']-c['zr']) < 100 and np.hypot(*c['xy']) < 300:
        return None
    x, y, z = ((0., 0., c['zs']) if c['which'] == 'src' else
               (*c['xy'], c['zr']))
    # stay in one layer: horizontal part only, if an interface is close
    zz = min([1e9]+[abs(z-k) for k in c['m']['depth']])
    sz = min(1., .8*zz/max(abs(d[4]), abs(d[5]), 1e-9))
    if zz == 0:
        sz = 0.
    b = [x+d[0], x+d[1], y+d[2], y+d[3], z+d[4]*sz, z+d[5]*sz]
    if np.linalg.norm(np.diff(np.reshape(b, (3, 2)))) < 1:
        return None
    t = c['cut']
    mid = [b[0]+t*(b[1]-b[0]), b[2]+t*(b[3]-b[2]), b[4]+t*(b[5]-b[4])]
    b1 = [b[0], mid[0], b[2], mid[1], b[4], mid[2]]
    b2 = [mid[0], b[1], mid[1], b[3], mid[2], b[5]]
    br = [b[1], b[0], b[3], b[2], b[5], b[4]]
    o = ([*c['xy'], c['zr']] if c['which'] == 'src' else [0., 0., c['zs']])
    n = {'srcpts' if c['which'] == 'src' else 'recpts': 9}

    def go(x):
        pq = (x, o+c['oa']) if c['which'] == 'src' else (o+c['oa'], x)
        return run(c, *pq, **n)
    A, B, C, D = go(b), go(b1), go(b2), go(br)
    T = sym.tensor([0, 0, c['zs']], [*c['xy'], c['zr']], c['f'], c['m'],
                   kinds(c), xdirect=c['xd'])
    L = np.linalg.norm(np.diff(np.reshape(b, (3, 2))))
    s = abs(c['strength'])*L*np.max([np.abs(x) for x in T.values()], axis=0)
    s = np.maximum(s, np.abs(A))
    # quadrature error, mm-rounding; close interfaces: steep gradients
    tol = 1e-5 + (4e-3/zz if sz else 0)
    if sz and zz < 20:
        return None
    sym.same('additive', 0, A, B+C, s, max(tol, 1e-4))
    sym.same('reversed', 0, A, -D, s, tol)
    return [c['which'], f"{c['msrc']}->{c['mrec']}"] if np.any(A) else None


@st.composite
def case_sev(draw):
    c = draw(common(on_if=False, off=(300., 3000.)))
    c['ns'] = draw(st.sampled_from([1, 2, 3, 4]))
    c['nr'] = draw(st.sampled_from([1, 2, 3]))

    def many(ctr, how):
        n = draw(st.integers(1, 3))
        flat = draw(st.sampled_from([True, True, False]))
        out = []
        for i in range(n):
            p = [ctr[0] + 21*i, ctr[1] - 13.*i, ctr[2]]
            if how == 0:
                out.append([*p, draw(axis_angle()), draw(dip_angle())])
            else:
                s = draw(seg(p))
                if flat:    # One pair of depths
                    s[4:] = (out[0][4:] if out else
                             [p[2], p[2]] if s[0] != s[1] or s[2] != s[3]
                             else s[4:])
                out.append(s)
        return out
    c['src'] = many([0., 0., c['zs']], draw(st.integers(0, 3)))
    c['rec'] = many([*c['xy'], c['zr']], draw(st.integers(0, 3)))
    return c


@facet('several', case_sev(), quick=400, shards=4)
def several(c):
    """Each element is the superposition for its source and receiver."""
    n, m = len(c['src']), len(c['rec'])
    for P in (c['src'], c['rec']):
        for p in P:
            if len(p) == 6 and np.linalg.norm(np.diff(np.reshape(
                    p, (3, 2)))) < 1:
                return None
            z = [p[2]] if len(p) == 5 else p[4:]
            if any(min(z)-.1 <= d <= max(z)+.1 for d in c['m']['depth']):
                return None
    kw = dict(srcpts=c['ns'], recpts=c['nr'])

    def cols(P):
        return [list(x) for x in zip(*P)]
    v = run(c, cols(c['src']), cols(c['rec']), squeeze=False, **kw)
    if v.shape != (len(c['f']), m, n):
        raise Violation(f'shape {v.shape}')
    st_ = c['strength']
    nz = 0
    for i, r in enumerate(c['rec']):
        for j, s in enumerate(c['src']):
            P, wp, vs, Ls = _points(s, c['ns'])
            Q, wq, vr, Lr = _points(r, c['nr'])
            tot = scl = 0
            for p, w in zip(P[:], wp):
                for q, u in zip(Q, wq):
                    a, b = elem(c, p, q, vs, vr)
                    tot = tot + w*u*a
                    scl = scl + w*u*b
            fac = st_*Ls*Lr if st_ != 0 else 1.
            near = min([150.] + [abs(z-d) for z in (*P[:, 2], *Q[:, 2])
                                 for d in c['m']['depth']])
            dz = np.abs(np.subtract.outer(P[:, 2], Q[:, 2]))
            if np.any((dz < .01) & (dz > 0)):
                continue
            sym.same(f"rec {i} src {j}, {c['msrc']}->{c['mrec']}", 0,
                     v[:, i, j], tot*fac, scl*abs(fac), 1e-6 + 2e-3/near)
            nz += np.any(v[:, i, j])
    if not nz or n*m == 1:
        return None
    return [f'{n},{m}', f"strength={st_}", f"{len(c['src'][0])},"
            f"{len(c['rec'][0])}"]
