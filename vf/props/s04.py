import numpy as np
from hypothesis import strategies as st

from vf import gen, sym, warm as _warm
from vf.core import facet

ID = 'S04'
TITLE = 'Dimensional scaling and electric-magnetic duality'
RULE = ('Random layered VTI models; lengths, resistivities, permeabilities '
        'and frequencies/times are scaled together such that Maxwell\'s '
        'equations prescribe the factor of every field component (full '
        'scaling, diffusive scaling with eps=0, in frequency, Laplace and '
        'time domain), and electric and magnetic parameters are exchanged '
        '(duality) through the material hooks. Non-trivial: non-zero '
        'response and scaling factor different from one.')
ASSUMPTIONS = ['Relative to the largest component at the receiver, 1e-6 plus '
               'the round-off due to the resistivity contrast.']


def warm():
    _warm.kernel(True)


@st.composite
def case_full(draw):
    c = draw(sym.base())
    c['L'] = draw(gen.lg(.02, 50))
    if c['L']*np.hypot(*c['xy']) < .1:
        c['L'] = 2.
    return c


@facet('lengths', case_full(), quick=300, shards=4)
def lengths(c):
    """x -> L x, rho -> L rho, f -> f/L: all fields per moment times 1/L^2."""
    m, L = c['m'], c['L']
    A = sym.tensor([0, 0, c['zs']], [*c['xy'], c['zr']], c['f'], m,
                   xdirect=c['xd'])
    m2 = {**m, 'depth': [L*z for z in m['depth']],
          'res': [L*r for r in m['res']]}
    B = sym.tensor([0, 0, L*c['zs']], [L*c['xy'][0], L*c['xy'][1],
                                       L*c['zr']],
                   [f/L for f in c['f']], m2, xdirect=c['xd'])
    for ab in gen.ABS:
        sym.same(f'length scale {L}', ab, A[ab], B[ab]*L**2,
                 sym.scale(A, ab), sym.tol(m))
    return sym.labels(c)


@st.composite
def case_diff(draw, **kw):
    c = draw(sym.base(eps=0, **kw))
    n = len(c['m']['res'])
    c['m']['eh'] = c['m']['ev'] = [0.]*n
    c['L'] = draw(gen.lg(.05, 20))
    if c['L']*np.hypot(*c['xy']) < .1:
        c['L'] = 2.
    c['c'] = draw(gen.lg(.1, 10))
    c['mu'] = draw(gen.lg(.2, 5))
    return c


def factor(ab, L, c, mu):
    """x->Lx, rho->c rho, mu->mu mu, f -> f c/(mu L^2)."""
    w = c/(mu*L**2)            # factor of s
    r, s = ab//10 > 3, ab % 10 > 3
    if not r and not s:
        return c/L**3
    if r and s:
        return 1/(w*mu*L**3)
    return 1/L**2


@facet('diffusive', case_diff(), quick=300, shards=4)
def diffusive(c):
    m, L, cc, mu = c['m'], c['L'], c['c'], c['mu']
    A = sym.tensor([0, 0, c['zs']], [*c['xy'], c['zr']], c['f'], m,
                   xdirect=c['xd'])
    m2 = {**m, 'depth': [L*z for z in m['depth']],
          'res': [cc*r for r in m['res']],
          'mh': [mu*r for r in m['mh']], 'mv': [mu*r for r in m['mv']]}
    B = sym.tensor([0, 0, L*c['zs']], [L*c['xy'][0], L*c['xy'][1],
                                       L*c['zr']],
                   [f*cc/(mu*L**2) for f in c['f']], m2, xdirect=c['xd'])
    for ab in gen.ABS:
        sym.same(f'diffusive scaling {L} {cc} {mu}', ab, A[ab],
                 B[ab]/factor(ab, L, cc, mu), sym.scale(A, ab), sym.tol(m))
    return sym.labels(c)


@st.composite
def case_time(draw):
    c = draw(case_diff(p=(.4, 4.)))
    c['t'] = [draw(gen.lg(.05, 10))/(6*abs(f)) for f in c['f']]
    c['signal'] = draw(st.sampled_from([0, 1, -1]))
    c['ft'] = draw(st.sampled_from(['dlf', 'dlf', 'fftlog']))
    c['ab'] = draw(st.sampled_from(gen.ABS34))
    return c


@facet('time', case_time(), quick=120, shards=4)
def time(c):
    """Same in time: impulse responses get the additional factor of 1/t."""
    m, L, cc, mu = c['m'], c['L'], c['c'], c['mu']
    w = cc/(mu*L**2)
    kw = dict(signal=c['signal'], xdirect=c['xd'], abs_=sym.group(c['ab']),
              ft=c['ft'])
    A = sym.tensor([0, 0, c['zs']], [*c['xy'], c['zr']], c['t'], m, **kw)
    m2 = {**m, 'depth': [L*z for z in m['depth']],
          'res': [cc*r for r in m['res']],
          'mh': [mu*r for r in m['mh']], 'mv': [mu*r for r in m['mv']]}
    B = sym.tensor([0, 0, L*c['zs']], [L*c['xy'][0], L*c['xy'][1],
                                       L*c['zr']],
                   [t/w for t in c['t']], m2, **kw)
    s = max(np.max(np.abs(v)) for v in A.values())
    for ab in sym.group(c['ab']):
        if ab in (36, 63):
            continue
        fac = factor(ab, L, cc, mu)*(w if c['signal'] == 0 else 1)
        sym.same(f'time scaling {L} {cc} {mu}', ab, A[ab], B[ab]/fac, s,
                 1e-4 + sym.tol(m))
    return sym.labels(c) + [c['ft'], f"signal={c['signal']}"]


@facet('duality', sym.base(), quick=300, shards=4)
def duality(c):
    """Exchange of eta and zeta: (E, H, J, M) -> (H, -E, M, -J)."""
    m = c['m']

    def tensor(swap):
        import empymod
        k = 1e4
        out = {}
        for ab in gen.ABS:
            store = {}

            def feta(inp, p):
                store['e'] = p['etaH'].copy(), p['etaV'].copy()
                if swap:
                    return p['zetaH']*k, p['zetaV']*k
                return p['etaH'], p['etaV']

            def fzeta(inp, p):
                if swap:
                    return store['e'][0]/k, store['e'][1]/k
                return p['zetaH'], p['zetaV']
            kw = gen.mkw(m)
            kw['res'] = {'res': m['res'], 'func_eta': feta,
                         'func_zeta': fzeta}
            out[ab] = np.asarray(empymod.dipole(
                [0, 0, c['zs']], [*c['xy'], c['zr']], freqtime=c['f'], ab=ab,
                verb=0, xdirect=c['xd'], **kw))
        return out, k
    A, k = tensor(False)
    B, k = tensor(True)
    # Dual medium eta' = k zeta, zeta' = eta/k:  E^J[eta', zeta'] =
    # H^M[eta, zeta]/k, H^J' = -E^M, E^M' = -H^J, H^M' = k E^J.
    for ab in gen.ABS:
        r, s = ab//10, ab % 10
        r2, s2 = (r+2) % 6+1, (s+2) % 6+1
        fac = {(0, 0): 1/k, (1, 1): k}.get((r > 3, s > 3), -1)
        ex = A[10*r2+s2]*fac
        sc = sym.scale(A, 10*r2+s2)*abs(fac)
        sym.same('duality', ab, B[ab], ex, sc, sym.tol(m))
    return sym.labels(c)
