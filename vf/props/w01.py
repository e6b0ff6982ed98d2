import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, warm as _warm
from vf.core import facet, Violation, R

ID = 'W01'
TITLE = 'Wavenumber-domain kernel solves the layered Maxwell problem'
RULE = ('Random VTI models (1-6 layers, anisotropic sigma/eps/mu, air, zero '
        'thickness), source/receiver in any layer or on interfaces, '
        'frequencies and Laplace parameters, wavenumbers; every source-'
        'receiver type. Oracle: dense global linear system for the TM/TE '
        'boundary-value problem (no recursions). Non-trivial: at least one '
        'compared coefficient is non-zero; label = case kind.')
ASSUMPTIONS = ['Comparison relative to the sum of magnitudes of the '
               'contributing waves (1e-8 + 1e-16*resistivity contrast: in air the up- and downgoing '
               'waves cancel and either formulation loses digits).']


def warm():
    _warm.kernel(True)


def tol(m):
    r = np.array(m['res'])
    a = np.array(m['aniso'])**2
    return 1e-8 + 1e-16*(r*np.maximum(a, 1)).max()/(r*np.minimum(a, 1)).min()


def compare(m, f, k, zs, zr, xy, ab, P0, P1, direct=True):
    """P0, P1: (nk,) from empymod."""
    G = ref.green_k(k, m['depth'], *gen.ez(m, f), zs, zr, direct)
    off, th = np.hypot(*xy), np.arctan2(xy[1], xy[0])
    q0, q1, s0, s1 = ref.pj(ab, k, G, off, th)
    n = 0
    for nm, a, b, s in (('PJ0', P0, q0, s0), ('PJ1', P1, q1, s1)):
        a = np.asarray(a)
        if a.shape != k.shape:
            raise Violation(f'ab={ab} {nm}: shape {a.shape} != {k.shape}')
        # (relative to the wave magnitudes, floor for the underflow regime)
        err = np.abs(a-b)/(s + 1e-200)
        bad = ~(err < tol(m)) & ~((np.abs(a) < 1e-150) & (np.abs(b) < 1e-150))
        if np.any(bad):
            i = int(np.argmax(np.where(bad, np.nan_to_num(err, nan=1e300),
                                       -1)))
            raise Violation(f'ab={ab} f={f} k={k[i]} {nm}: {a[i]} vs '
                            f'reference {b[i]} (wave magnitude {s[i]:.3g})')
        n += int(np.any(b != 0))
    return n


@st.composite
def case_all(draw):
    m = draw(gen.layers(1, 6, air=draw(st.sampled_from([1e8, 1e12]))))
    return {'m': m, 'f': draw(gen.freqs(1e-2, 1e6)),
            'zs': draw(gen.zin(m['depth'])), 'zr': draw(gen.zin(m['depth'])),
            'xy': draw(gen.hor(1., 3000.)),
            'k': draw(st.lists(gen.lg(1e-5, 2.), min_size=2, max_size=5)),
            'form': draw(gen.depth_forms(m['depth']))}


@facet('all_ab', case_all(), quick=700, shards=6)
def all_ab(c):
    m, k = c['m'], np.array(c['k'])
    kw = gen.mkw(m)
    kw['depth'] = gen.write_depth(m['depth'], c['form'])
    import empymod
    n = 0
    for ab in gen.ABS:
        P0, P1 = empymod.dipole_k(
            [0, 0, c['zs']], [*c['xy'], c['zr']], freq=c['f'], wavenumber=k,
            ab=ab, verb=0, **kw)
        if ab in (36, 63):
            if np.any(P0 != 0) or np.any(P1 != 0):
                raise Violation(f'ab={ab} must be zero')
            continue
        n += compare(m, c['f'], k, c['zs'], c['zr'], c['xy'], ab, P0, P1)
    ls, lr = (ref.layer_of(z, m['depth']) for z in (c['zs'], c['zr']))
    lab = [f"layers={len(m['res'])}", 'laplace' if c['f'] < 0 else 'freq',
           'same' if ls == lr else ('above' if lr < ls else 'below')]
    if c['zs'] in m['depth'] or c['zr'] in m['depth']:
        lab.append('on-interface')
    return lab if n else None


@st.composite
def case_multi(draw):
    m = draw(gen.layers(1, 5))
    two_d = draw(st.booleans())
    nr = 1 if two_d else draw(st.integers(1, 3))
    nk = draw(st.integers(1, 3))
    nf = draw(st.integers(1, 3))
    lap = draw(st.booleans())
    fr = [draw(gen.lg(1e-2, 1e4)) for _ in range(nf)]
    return {'m': m, 'f': [-f for f in fr] if lap else fr,
            'zs': draw(gen.zin(m['depth'])), 'zr': draw(gen.zin(m['depth'])),
            'xy': [draw(gen.hor(1., 3000.)) for _ in range(nr)],
            'src': [draw(gen.un(-50, 50)), draw(gen.un(-50, 50))],
            'k': [[draw(gen.lg(1e-5, 1.)) for _ in range(nk)]
                  for _ in range(draw(st.integers(1, 3)) if two_d else 1)],
            'two_d': two_d, 'rev': draw(st.booleans()),
            'ab': draw(st.sampled_from(gen.ABS))}


@facet('vectorised', case_multi(), quick=900, shards=3)
def vectorised(c):
    """Several frequencies, offsets, 2-D wavenumbers, reversed depths."""
    import empymod
    m, ab = c['m'], c['ab']
    k2 = np.array(c['k'])
    wn = k2 if c['two_d'] else k2[0]
    kw = gen.mkw(m)
    if c['rev'] and len(m['res']) > 2:
        kw = {n: list(v)[::-1] for n, v in kw.items()}
    x = [c['src'][0] + p[0] for p in c['xy']]
    y = [c['src'][1] + p[1] for p in c['xy']]
    nf, nr = len(c['f']), len(x)
    if nr == 1:
        x, y = x[0], y[0]
    P0, P1 = empymod.dipole_k(
        [*c['src'], c['zs']], [x, y, c['zr']], freq=c['f'], wavenumber=wn,
        ab=ab, verb=0, **kw)
    n1 = k2.shape[0] if c['two_d'] else nr
    shp = (nf, n1, k2.shape[1])
    sq = tuple(i for i in shp if i > 1)
    if P0.shape != sq or P1.shape != sq:
        raise Violation(f'shape {P0.shape}, {P1.shape} instead of {sq}')
    P0, P1 = P0.reshape(shp), P1.reshape(shp)
    if ab in (36, 63):
        if np.any(P0 != 0) or np.any(P1 != 0):
            raise Violation(f'ab={ab} must be zero')
        return None
    n = 0
    for i, f in enumerate(c['f']):
        for j in range(n1):
            xy = c['xy'][0 if c['two_d'] else j]
            k = k2[j] if c['two_d'] else k2[0]
            n += compare(m, f, k, c['zs'], c['zr'], xy, ab, P0[i, j], P1[i, j])
    return f"nf{nf} n{n1} {'2d' if c['two_d'] else '1d'}" if n else None


@st.composite
def case_zero(draw):
    c = draw(case_all())
    c['m'] = draw(gen.layers(3, 7, zero_thick=True))
    c['zs'] = draw(gen.zin(c['m']['depth'], on_if=False))
    c['zr'] = draw(gen.zin(c['m']['depth'], on_if=False))
    return c


@facet('zero_thickness', case_zero(), quick=300)
def zero_thickness(c):
    """Layers without thickness, source/receiver not on these interfaces."""
    m = c['m']
    if c['zs'] in m['depth'] or c['zr'] in m['depth']:
        return None
    all_ab({**c, 'form': 'as'})
    return 'zero' if len(set(m['depth'])) < len(m['depth']) else None


@st.composite
def case_sec(draw):
    c = draw(case_all())
    c['ab'] = draw(st.sampled_from(gen.ABS34))
    return c


@facet('secondary', case_sec(), quick=500, shards=2)
def secondary(c):
    """kernel.wavenumber without direct field is the secondary field."""
    from empymod import kernel, utils
    m, k, ab = c['m'], np.array(c['k']), c['ab']
    d, res, an, eh, ev, mh, mv, _ = utils.check_model(
        m['depth'], m['res'], m['aniso'], m['eh'], m['ev'], m['mh'], m['mv'],
        True, 0)
    f, eH, eV, zH, zV = utils.check_frequency(
        c['f'], res, an, eh, ev, mh, mv, 0)
    abc, msrc, mrec = utils.check_ab(ab, 0)
    src = [np.array([0.]), np.array([0.]), c['zs']]
    rec = [np.array([c['xy'][0]]), np.array([c['xy'][1]]), c['zr']]
    off, ang = utils.get_off_ang(src, rec, 1, 1, 0)
    fact = R(kernel.angle_factor, ang, abc, msrc, mrec)
    ls, zs = utils.get_layer_nr(src, d)
    lr, zr = utils.get_layer_nr(rec, d)
    if (ls, lr) != tuple(ref.layer_of(c[z], m['depth']) for z in
                         ('zs', 'zr')):
        raise Violation(f'layer numbers {ls}, {lr}')
    PJ0, PJ1, PJ0b = R(kernel.wavenumber, zs, zr, ls, lr, d, eH, eV, zH, zV,
                       k[None, :], abc, True, msrc, mrec)
    P0, P1 = np.zeros((2, k.size), eH.dtype)
    if PJ0 is not None:
        P0 = P0 + PJ0[0, 0]
    if PJ0b is not None:
        P0 = P0 + PJ0b[0, 0]*fact[0]
    if PJ1 is not None:
        P1 = fact[0]*PJ1[0, 0]/(off[0] if abc in (
            11, 12, 21, 22, 14, 24, 15, 25) else 1)
    n = compare(m, c['f'], k, c['zs'], c['zr'], c['xy'], ab, P0, P1,
                direct=False)
    return ('same' if ls == lr else 'other') if n else None
