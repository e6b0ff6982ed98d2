import numpy as np
from hypothesis import strategies as st

from vf import gen, sym, warm as _warm
from vf.core import facet, Violation

ID = 'S02'
TITLE = 'Invariance under translation, rotation, mirroring and handedness'
RULE = ('Random layered VTI models; the whole experiment is shifted, rotated '
        'about the vertical, mirrored at a vertical or the horizontal plane, '
        'or written in the other coordinate system (depths decreasing), and '
        'the transformed tensor compared. Non-trivial: non-zero responses.')
ASSUMPTIONS = ['Relative to the largest component at the receiver, 1e-6 plus '
               'the round-off due to coordinates and resistivity contrast.']


def warm():
    _warm.kernel(True, rev=True)


@st.composite
def case_shift(draw):
    c = draw(sym.base(on_if=False))
    c['d'] = [draw(gen.un(-1000, 1000)), draw(gen.un(-1000, 1000)),
              draw(gen.un(-300, 300))]
    return c


@facet('translation', case_shift(), quick=220, shards=3)
def translation(c):
    m, d = c['m'], c['d']
    p, q = [0., 0., c['zs']], [*c['xy'], c['zr']]
    A = sym.tensor(p, q, c['f'], m, xdirect=c['xd'])
    m2 = {**m, 'depth': [z+d[2] for z in m['depth']]}
    B = sym.tensor([a+b for a, b in zip(p, d)], [a+b for a, b in zip(q, d)],
                   c['f'], m2, xdirect=c['xd'])
    for ab in gen.ABS:
        s = sym.scale(A, ab)
        sym.same('translation', ab, A[ab], B[ab], s, 1e-6 + sym.tol(m))
    return sym.labels(c)


def rotmat(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])


def blocks(T):
    """{(r, s): (3, 3, nf)}."""
    return {k: np.array([T[ab] for ab in abs_]).reshape(3, 3, -1)
            for k, abs_ in sym.GROUPS.items()}


@st.composite
def case_rot(draw):
    c = draw(sym.base())
    c['a'] = draw(st.one_of(gen.un(-360, 360),
                            st.sampled_from([90., 180., -90.])))
    return c


@facet('rotation', case_rot(), quick=220, shards=3)
def rotation(c):
    m = c['m']
    p, q = [0., 0., c['zs']], [*c['xy'], c['zr']]
    Q = rotmat(np.deg2rad(c['a']))
    T = sym.tensor(p, q, c['f'], m, xdirect=c['xd'])
    A = blocks(T)
    B = blocks(sym.tensor(p, list(Q @ q), c['f'], m, xdirect=c['xd']))
    for k in A:
        ex = np.einsum('ij,jkf,lk->ilf', Q, A[k], Q)
        s = sym.scale(T, sym.GROUPS[k][0])
        sym.same('rotation', k, B[k], ex, s, 1e-6 + sym.tol(m))
    return sym.labels(c)


@st.composite
def case_mir(draw):
    c = draw(sym.base(on_if=False))
    c['axis'] = draw(st.sampled_from([0, 1, 2]))
    return c


@facet('mirror', case_mir(), quick=220, shards=3)
def mirror(c):
    """H and M are pseudo-vectors; axis 2 flips the layering."""
    m, ax = c['m'], c['axis']
    p, q = np.array([0., 0., c['zs']]), np.array([*c['xy'], c['zr']])
    T = sym.tensor(p, q, c['f'], m, xdirect=c['xd'])
    A = blocks(T)
    S = np.ones(3)
    S[ax] = -1
    m2 = m
    if ax == 2:
        m2 = {k: list(v)[::-1] for k, v in m.items()}
        m2['depth'] = [-z for z in m2['depth']]
    B = blocks(sym.tensor(p*S, q*S, c['f'], m2, xdirect=c['xd']))
    for (r, s_), a in A.items():
        L, R_ = S*(-1 if r else 1), S*(-1 if s_ else 1)
        ex = L[:, None, None]*a*R_[None, :, None]
        s = sym.scale(T, sym.GROUPS[r, s_][0])
        sym.same(f'mirror axis {ax}', (r, s_), B[r, s_], ex, s,
                 1e-6 + sym.tol(m))
    return sym.labels(c) + [f'axis={ax}']


@st.composite
def case_rev(draw):
    c = draw(sym.base(nmin=2, nmax=6))
    c['ab'] = draw(st.sampled_from(gen.ABS34))
    c['inf'] = draw(st.sampled_from(['', 'lo', 'hi', 'both']))
    c['default'] = draw(st.sampled_from(['', 'aniso', 'eperm', 'mperm']))
    return c


@facet('handedness', case_rev(), quick=600)
def handedness(c):
    """Depths and parameters written from bottom to top: same response."""
    import empymod
    m = c['m']
    kw = gen.mkw(m)
    for k in [k for k in kw if c['default'] and k.startswith(c['default'])]:
        kw.pop(k)
    kw2 = {k: list(v)[::-1] for k, v in kw.items()}
    lo, hi = c['inf'] in ('lo', 'both'), c['inf'] in ('hi', 'both')
    if len(m['depth']) < 2 and not c['inf']:
        # A single depth has no direction.
        kw2 = kw
    if lo:
        kw2['depth'] = kw2['depth'] + [-np.inf]
    if hi:
        kw2['depth'] = [np.inf] + kw2['depth']
    inp = dict(src=[0, 0, c['zs']], rec=[*c['xy'], c['zr']],
               freqtime=c['f'], ab=c['ab'], xdirect=c['xd'], verb=0)
    a = np.asarray(empymod.dipole(**inp, **kw))
    b = np.asarray(empymod.dipole(**inp, **kw2))
    if not np.array_equal(a, b, equal_nan=True):
        raise Violation(f'order of layers: {a} != {b}')
    return sym.labels(c) + ['inf='+c['inf']] if np.any(a) else None


@st.composite
def case_bip(draw):
    c = draw(sym.base(nmax=4, off=(100., 3000.)))
    c['a'] = draw(gen.un(-360, 360))
    c['ang'] = [draw(gen.un(-180, 180)), draw(gen.un(-90, 90)),
                draw(gen.un(-180, 180)), draw(gen.un(-90, 90))]
    c['msrc'], c['mrec'] = draw(st.booleans()), draw(st.booleans())
    c['len'] = draw(st.sampled_from([0, 20., 60.]))
    return c


@facet('bipole', case_bip(), quick=300)
def bipole(c):
    """The whole survey rotated about the vertical."""
    import empymod
    m = c['m']
    a = np.deg2rad(c['a'])
    xr = (rotmat(a) @ [*c['xy'], c['zr']])
    az, dp, raz, rdp = c['ang']
    kw = dict(freqtime=c['f'], xdirect=c['xd'], verb=0, msrc=c['msrc'],
              mrec=c['mrec'], srcpts=3 if c['len'] else 1, **gen.mkw(m))

    def src(azm):
        if not c['len']:
            return [0, 0, c['zs'], azm, dp]
        u = c['len']/2*np.array([np.cos(np.deg2rad(azm)),
                                 np.sin(np.deg2rad(azm))])
        return [-u[0], u[0], -u[1], u[1], c['zs'], c['zs']]
    A = np.asarray(empymod.bipole(src(az), [*c['xy'], c['zr'], raz, rdp],
                                  **kw))
    B = np.asarray(empymod.bipole(src(az+c['a']),
                                  [*xr[:2], c['zr'], raz+c['a'], rdp], **kw))
    T = sym.tensor([0, 0, c['zs']], [*c['xy'], c['zr']], c['f'], m,
                   xdirect=c['xd'], abs_=sym.GROUPS[c['mrec'], c['msrc']])
    s = np.max([np.abs(v) for v in T.values()], axis=0)
    # (coordinates of finite bipoles are rounded to millimetres)
    sym.same('rotated survey', (c['msrc'], c['mrec']), A, B, s,
             1e-6 + sym.tol(m) + (1e-4 if c['len'] else 0))
    return sym.labels(c)
