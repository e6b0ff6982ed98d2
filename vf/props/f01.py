import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, warm as _warm
from vf.core import facet, Violation

ID = 'F01'
TITLE = 'Closed-form full-space solution is exact and used consistently'
RULE = ('Random homogeneous VTI media, positions and source-receiver types. '
        'Oracles: Green tensor of the isotropic whole-space from the Hessian '
        'of exp(-gR)/4piR; numerical wavenumber integration (VTI); the '
        'modeller for homogeneous media (any xdirect, any number of '
        'fictitious layers). Non-trivial: non-zero response.')
ASSUMPTIONS = ['Wavenumber integration: 1e-6 of the absolute integrand; '
               'default digital filter: 1e-4 of the largest component.']


def warm():
    _warm.kernel(True)


def par(draw, vti):
    aniso = draw(gen.lg(.35, 4.)) if vti else 1.
    eh = draw(st.sampled_from([1., 0., 80., 9.5]))
    mh = draw(st.sampled_from([1., .5, 8., 1.7]))
    return {'res': draw(gen.lg(.01, 1e5)), 'aniso': aniso, 'eh': eh,
            'ev': draw(gen.un(0, 80)) if vti else eh, 'mh': mh,
            'mv': draw(gen.lg(.5, 8)) if vti else mh}


@st.composite
def case_iso(draw):
    return {**par(draw, False), 'f': draw(gen.freqs(1e-3, 1e8)),
            'src': [draw(gen.un(-100, 100)) for _ in range(3)],
            'd': [*draw(gen.hor(.1, 1000.)),
                  draw(st.one_of(st.just(0.), gen.pm(.1, 1000.)))]}


def akw(c):
    return dict(aniso=c['aniso'], epermH=c['eh'], epermV=c['ev'],
                mpermH=c['mh'], mpermV=c['mv'], verb=0)


def ezof(c):
    return ref.eta_zeta(c['f'], c['res'], c['aniso'], c['eh'], c['ev'],
                        c['mh'], c['mv'])


@facet('isotropic', case_iso(), quick=600, shards=2)
def isotropic(c):
    import empymod
    ez = ezof(c)
    rec = [float(a+b) for a, b in zip(c['src'], c['d'])]
    d = np.array(rec) - c['src']
    gR = abs(np.sqrt(complex(ez[0]*ez[2])))*np.linalg.norm(d)
    if gR > 300:
        return None
    R = {ab: ref.fullspace(ab, *d, *ez) for ab in gen.ABS34}
    for grp in ((1, 1), (1, 2), (2, 1), (2, 2)):
        abs_ = [ab for ab in gen.ABS34
                if (ab//10 > 3) == (grp[0] > 1) and (ab % 10 > 3) ==
                (grp[1] > 1)]
        s = max(abs(R[ab]) for ab in abs_)
        for ab in abs_:
            v = complex(empymod.analytical(c['src'], rec, c['res'], c['f'],
                                           ab=ab, **akw(c)))
            # (near the vertical axis the code divides by offset^2)
            t = 1e-9*(1+gR) + 1e-14*(d @ d)/(d[0]**2+d[1]**2)
            if not abs(v-R[ab]) <= t*s:
                raise Violation(f'ab={ab}: {v} vs Green tensor {R[ab]}')
    return ['laplace' if c['f'] < 0 else 'freq',
            'far' if gR > 3 else 'near']


@st.composite
def case_vti(draw):
    return {**par(draw, True), 'f': draw(gen.freqs(1e-3, 1e6)),
            'zs': draw(gen.un(-100, 100)), 'dz': draw(gen.pm(1., 500.)),
            'ratio': draw(gen.lg(.3, 20.)), 'xy': draw(gen.hor(1., 1.))}


@facet('vti', case_vti(), quick=250, shards=4)
def vti(c):
    """Against numerical wavenumber integration."""
    import empymod
    ez = ezof(c)
    fac = min(1, np.sqrt(abs(ez[0]/ez[1])), np.sqrt(abs(ez[2]/ez[3])))
    dz = c['dz']
    zr = c['zs'] + dz
    dec = abs(zr - c['zs'])*fac
    x, y = (p*c['ratio']*dec for p in c['xy'])
    if np.abs(np.sqrt(complex(ez[0]*ez[2])))*np.hypot(x, dz) > 30:
        return None
    S = ref.space(gen.ABS34, [], [[z] for z in ez], c['zs'], zr,
                  np.hypot(x, y), np.arctan2(y, x), True, dec)
    for ab in gen.ABS:
        v = complex(empymod.analytical([0, 0, c['zs']], [x, y, zr], c['res'],
                                       c['f'], ab=ab, **akw(c)))
        if ab in (36, 63):
            if v != 0:
                raise Violation(f'ab={ab} is not zero: {v}')
            continue
        r, s = S[ab]
        if not abs(v-r) <= 1e-6*s:
            raise Violation(f'ab={ab}: {v} vs integration {r} ({s:.3g})')
    return 'laplace' if c['f'] < 0 else 'freq'


@st.composite
def case_use(draw):
    nl = draw(st.integers(1, 4))
    depth = sorted(draw(gen.un(-200, 200)) for _ in range(nl-1))
    return {**par(draw, True), 'f': draw(gen.freqs(1e-3, 1e4)),
            'depth': depth, 'xdirect': draw(st.sampled_from([True, False])),
            'zs': draw(gen.un(-150, 150)), 'dz': draw(
                st.one_of(st.just(0.), gen.pm(1., 200.))),
            'xy': draw(gen.hor(20., 2000.))}


@facet('modeller', case_use(), quick=350, shards=3)
def modeller(c):
    """dipole() in homogeneous media, however it is layered."""
    import empymod
    n = len(c['depth'])+1
    ez = ezof(c)
    rec = [*c['xy'], c['zs']+c['dz']]
    gR = (abs(np.sqrt(complex(ez[0]*ez[2])))
          * np.linalg.norm([*c['xy'], c['dz']]))
    if gR > 15:
        return None
    kw = dict(aniso=[c['aniso']]*n, epermH=[c['eh']]*n, epermV=[c['ev']]*n,
              mpermH=[c['mh']]*n, mpermV=[c['mv']]*n, verb=0)
    A = {ab: complex(empymod.analytical([0, 0, c['zs']], rec, c['res'],
                                        c['f'], ab=ab, **akw(c)))
         for ab in gen.ABS}
    for ab in gen.ABS:
        v = complex(empymod.dipole(
            [0, 0, c['zs']], rec, c['depth'], [c['res']]*n, c['f'], ab=ab,
            xdirect=c['xdirect'], **kw))
        s = max(abs(A[a]) for a in gen.ABS if (a//10 > 3) == (ab//10 > 3)
                and (a % 10 > 3) == (ab % 10 > 3))
        tol = 1e-12 if c['xdirect'] else 2e-4*(1+gR)**2
        if not abs(v - A[ab]) <= tol*s:
            raise Violation(f"ab={ab} xdirect={c['xdirect']}: {v} vs "
                            f'full-space {A[ab]}')
    return f"xdirect={c['xdirect']}"
