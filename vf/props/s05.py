import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, sym, warm as _warm
from vf.core import facet, Violation

ID = 'S05'
TITLE = 'Fields satisfy the continuity conditions at every interface'
RULE = ('Random layered VTI models with a contrast; the receiver (or the '
        'source) is placed on an interface, which counts as the layer above, '
        'and just below it. Tangential E and H and normal J and B are '
        'continuous. Within a layer the field is continuous across the depth '
        'of the source. Non-trivial: a contrast at that interface.')
ASSUMPTIONS = ['"Just below" is 1e-7 of the thickness scale; relative to the '
               'wave magnitudes/largest component, 1e-5 plus round-off.']


def warm():
    _warm.kernel(True)


@st.composite
def case(draw):
    c = draw(sym.base(nmin=2, nmax=6))
    c['i'] = draw(st.integers(0, len(c['m']['depth'])-1))
    c['side'] = draw(st.sampled_from(['rec', 'src']))
    return c


def jump(ab, ez, i, side):
    """Value below / value above."""
    n = (ab//10 if side == 'rec' else ab % 10)
    if n == 3:
        return ez[1][i]/ez[1][i+1]
    if n == 6:
        return ez[3][i]/ez[3][i+1]
    return 1.


@facet('interface', case(), quick=300, shards=6)
def interface(c):
    m, i = c['m'], c['i']
    zi = m['depth'][i]
    other = c['zs'] if c['side'] == 'rec' else c['zr']
    d = m['depth']
    # distance to the other one, and to the neighbouring interfaces
    dist = min([abs(other-zi)] + [abs(z-zi) for z in d if z != zi])
    if abs(other - zi) < .05*np.hypot(*c['xy']) or dist <= 0:
        # (no decay in the wavenumber domain: digital filters differ)
        return None
    eps = 1e-7*dist
    out = []
    for z in (zi, zi+eps):
        p, q = [0., 0., c['zs']], [*c['xy'], c['zr']]
        if c['side'] == 'rec':
            q[2] = z
        else:
            p[2] = z
        out.append(sym.tensor(p, q, c['f'], m, xdirect=c['xd']
                              if c['xd'] is not None else False))
    A, B = out
    for nf, f in enumerate(c['f']):
        ez = gen.ez(m, f)
        for ab in gen.ABS:
            if ab in (36, 63):
                continue
            j = jump(ab, ez, i, c['side'])
            sc = max(sym.scale(A, ab)[nf]*max(1, abs(j)),
                     sym.scale(B, ab)[nf])
            a, b = A[ab][nf], B[ab][nf]
            if c['xd'] is True and (ref.layer_of(other, d) in (i, i+1)):
                tol = 2e-3   # analytical direct field against filter
            else:
                tol = 1e-5 + sym.tol(m)
            sym.same(f"interface {i} ({c['side']}) f={f}", ab, a*j, b, sc,
                     tol)
    return sym.labels(c)


@st.composite
def case_lev(draw):
    c = draw(sym.base(on_if=False, off=(5., 500.)))
    c['ab'] = draw(st.sampled_from(gen.ABS34))
    return c


@facet('source_level', case_lev(), quick=800, shards=2)
def source_level(c):
    """Receiver slightly above, at, and below the depth of the source."""
    import empymod
    m, ab, z = c['m'], c['ab'], c['zs']
    d = 1e-6
    if any(abs(z-x) < .05 for x in m['depth']):
        return None
    v = [np.asarray(empymod.dipole(
            [0, 0, z], [*c['xy'], zr], freqtime=c['f'], ab=ab, verb=0,
            xdirect=c['xd'], **gen.mkw(m))) for zr in (z-d, z, z+d)]
    T = sym.tensor([0, 0, z], [*c['xy'], z], c['f'], m, xdirect=c['xd'],
                   abs_=sym.group(ab))
    s = np.max([np.abs(x) for x in T.values()], axis=0)
    off = np.hypot(*c['xy'])
    # The mean of both sides is the value (wavenumber by wavenumber).
    sym.same('mean of above and below', ab, (v[0]+v[2])/2, v[1], s,
             1e-5 + sym.tol(m))
    # In space it is continuous (up to the accuracy of the filter).
    if c['xd'] is not False:
        dmin = min([abs(z-x) for x in m['depth']] + [off])
        sym.same('above and below', ab, v[0], v[2], s,
                 1e-4 + 20*d/dmin + sym.tol(m))
    return sym.labels(c)
