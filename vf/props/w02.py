import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, warm as _warm
from vf.core import facet, Violation

ID = 'W02'
TITLE = 'Frequency-domain dipole responses solve the layered problem in space'
RULE = ('Random VTI layered models, source/receiver anywhere, all 36 source-'
        'receiver types. Oracle: composite Gauss-Legendre integration of the '
        'independent boundary-value solution over the wavenumber. '
        'Non-trivial: integrand decays so that the oracle is converged, and '
        'the response is non-zero.')
ASSUMPTIONS = ['Tolerance relative to the integral of the absolute integrand: '
               '1e-4 (401/801 pt filters), 2e-3 (default 201 pt filter).']


def warm():
    _warm.kernel(True)


def geometry(m, f, zs, zr):
    """(direct in reference?, decay exponent) or None."""
    ez = gen.ez(m, f)
    d = m['depth']
    ls, lr = ref.layer_of(zs, d), ref.layer_of(zr, d)
    fac = min(1, np.sqrt(np.abs(ez[0]/ez[1])).min(),
              np.sqrt(np.abs(ez[2]/ez[3])).min())
    if ls != lr:
        return True, abs(zs-zr)*fac
    ds = []
    if ls > 0:
        ds.append(zs + zr - 2*d[ls-1])
    if ls < len(d):
        ds.append(2*d[ls] - zs - zr)
    return False, (min(ds)*fac if ds else 0.)


@st.composite
def case(draw):
    # (Propagating waves: the integrands become singular on the real axis,
    # beyond the accuracy of digital filters.)
    if draw(st.integers(0, 3)) == 0:
        m, fmax = draw(gen.layers(2, 6, air=0, res=(.05, 30))), 1e6
    else:
        m, fmax = draw(gen.layers(2, 6, airvac=True)), 3e3
    return {'m': m, 'f': draw(gen.freqs(1e-2, fmax)),
            'zs': draw(gen.zin(m['depth'])), 'zr': draw(gen.zin(m['depth'])),
            'xy': draw(gen.hor(5., 3000.)),
            'src': [draw(gen.un(-50, 50)), draw(gen.un(-50, 50))],
            'filt': draw(st.sampled_from(['key_401_2009', 'key_201_2009',
                                          'anderson_801_1982']))}


@facet('reference', case(), quick=480, shards=6)
def reference(c):
    import empymod
    m, f, zs, zr = (c[n] for n in ('m', 'f', 'zs', 'zr'))
    direct, dec = geometry(m, f, zs, zr)
    if dec < .05:
        return None
    off = np.hypot(*c['xy'])
    # Offset within [0.5, 20] times the decay length.
    x, y = (p/off*min(max(off, .5*dec), 20*dec) for p in c['xy'])
    off, th = np.hypot(x, y), np.arctan2(y, x)
    S = ref.space(gen.ABS34, m['depth'], gen.ez(m, f), zs, zr, off, th,
                  direct, dec)
    kw = gen.mkw(m)
    n = 0
    tol = 2e-3 if c['filt'] == 'key_201_2009' else 1e-4
    htarg = {} if c['filt'] == 'key_201_2009' else {'dlf': c['filt']}
    for ab in gen.ABS:
        inp = dict(src=[*c['src'], zs],
                   rec=[c['src'][0]+x, c['src'][1]+y, zr], freqtime=f, ab=ab,
                   verb=0, **kw)
        v = complex(empymod.dipole(xdirect=False if direct else None,
                                   htarg=htarg, **inp))
        if ab in (36, 63):
            if v != 0:
                raise Violation(f'ab={ab} must be zero: {v}')
            continue
        r, s = S[ab]
        if not abs(v-r) <= tol*s + 1e-120:
            raise Violation(f'ab={ab} f={f} x={x} y={y}: {v} vs reference '
                            f'{r} (scale {s:.3g})')
        n += r != 0
    lab = [f"layers={len(m['res'])}", 'laplace' if f < 0 else 'freq',
           'other-layer' if direct else 'same-layer']
    return lab if n else None


@st.composite
def case_x(draw):
    c = draw(case())
    c['ab'] = draw(st.sampled_from(gen.ABS34))
    return c


@facet('direct_field', case_x(), quick=2500, shards=2)
def direct_field(c):
    """xdirect None/True/False: secondary field + full-space = total."""
    import empymod
    m, f, zs, zr, ab = (c[n] for n in ('m', 'f', 'zs', 'zr', 'ab'))
    inp = dict(src=[*c['src'], zs],
               rec=[c['src'][0]+c['xy'][0], c['src'][1]+c['xy'][1], zr],
               freqtime=f, ab=ab, verb=0, **gen.mkw(m))
    sec, tru, fal = (complex(empymod.dipole(xdirect=x, **inp))
                     for x in (None, True, False))
    ls, lr = (ref.layer_of(z, m['depth']) for z in (zs, zr))
    homog = all(len(set(m[k])) == 1 for k in ('res', 'aniso', 'eh', 'ev',
                                              'mh', 'mv'))
    if ls != lr and not homog:
        if not (sec == tru == fal):
            raise Violation('xdirect matters although source and receiver '
                            f'are in different layers: {sec} {tru} {fal}')
        return 'other-layer'
    fs = complex(empymod.analytical(
        inp['src'], inp['rec'], m['res'][ls], f, ab=ab, aniso=m['aniso'][ls],
        epermH=m['eh'][ls], epermV=m['ev'][ls], mpermH=m['mh'][ls],
        mpermV=m['mv'][ls], verb=0))
    s = max(abs(fs), abs(sec))
    if homog and ls != lr:
        sec = 0 if abs(sec) == 0 else sec
        if not abs(tru - fs) <= 1e-9*s:
            raise Violation(f'homogeneous: xdirect=True {tru}, full-space '
                            f'{fs}')
        return 'homogeneous'
    if not abs(tru - (sec + fs)) <= 1e-9*s:
        raise Violation(f'xdirect=True {tru} != None {sec} + full-space {fs}')
    return 'same-layer' if fs else None
