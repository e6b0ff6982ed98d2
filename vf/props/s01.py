import numpy as np
from hypothesis import strategies as st

from vf import gen, sym, warm as _warm
from vf.core import facet

ID = 'S01'
TITLE = 'Source-receiver reciprocity'
RULE = ('Random layered VTI models and positions; each of the 36 source-'
        'receiver types against the one with source and receiver exchanged '
        '(sign change for electric-magnetic), for infinitesimal dipoles, '
        'rotated finite bipoles, full-space, frequency, Laplace and time. '
        'Non-trivial: non-zero responses.')
ASSUMPTIONS = ['Relative to the largest component at the receiver, 1e-6 plus '
               'the round-off due to the resistivity contrast.']


def warm():
    _warm.kernel(True)


def dual(ab):
    """Exchanged ab and sign."""
    r, s = ab//10, ab % 10
    return s*10+r, (-1 if (r > 3) != (s > 3) else 1)


@facet('dipole', sym.base(), quick=500, shards=6)
def dipole(c):
    m = c['m']
    p, q = [0., 0., c['zs']], [*c['xy'], c['zr']]
    A = sym.tensor(p, q, c['f'], m, xdirect=c['xd'])
    B = sym.tensor(q, p, c['f'], m, xdirect=c['xd'])
    for ab in gen.ABS:
        ba, sg = dual(ab)
        s = np.maximum(sym.scale(A, ab), sym.scale(B, ba))
        sym.same('reciprocity', ab, A[ab], sg*B[ba], s, sym.tol(m))
    return sym.labels(c) if any(np.any(A[a]) for a in A) else None


@st.composite
def case_time(draw):
    c = draw(sym.base(air=0, nf=0, res=(.1, 1e3)))
    c['t'] = [draw(gen.lg(1e-4, 10.)) for _ in range(2)]
    c['f'] = [1.]
    c['signal'] = draw(st.sampled_from([-1, 0, 1]))
    c['ft'] = draw(st.sampled_from(['dlf', 'fftlog']))
    c['ab'] = draw(st.sampled_from(gen.ABS34))
    return c


@facet('time', case_time(), quick=200, shards=2)
def time(c):
    import empymod
    m = c['m']
    p, q = [0., 0., c['zs']], [*c['xy'], c['zr']]
    kw = dict(freqtime=c['t'], signal=c['signal'], xdirect=c['xd'], verb=0,
              ft=c['ft'], **gen.mkw(m))
    ba, sg = dual(c['ab'])
    A = np.asarray(empymod.dipole(p, q, ab=c['ab'], **kw))
    B = np.asarray(empymod.dipole(q, p, ab=ba, **kw))
    # The transform cancels; compare to the largest intermediate value.
    g = [np.max(np.abs(np.asarray(empymod.dipole(p, q, ab=a, **kw))))
         for a in sym.group(c['ab'])]
    sym.same('time reciprocity', c['ab'], A, sg*B,
             max(g), 1e-4)
    return sym.labels(c) if np.any(A) else None


@st.composite
def case_bipole(draw):
    c = draw(sym.base(nmin=1, nmax=4, off=(200., 3000.)))
    for n, z in (('src', c['zs']), ('rec', c['zr'])):
        x, y = (0., 0.) if n == 'src' else c['xy']
        if draw(st.booleans()):
            d = [draw(gen.un(-40, 40)) for _ in range(3)]
            if abs(d[0])+abs(d[1])+abs(d[2]) < 1:
                d[0] = 10.
            c[n] = [x-d[0], x+d[0], y-d[1], y+d[1], z-d[2], z+d[2]]
        else:
            c[n] = [x, y, z, draw(gen.un(-180, 180)), draw(gen.un(-90, 90))]
        c['n'+n] = draw(st.sampled_from([1, 3, 4]))
        c['m'+n] = draw(st.booleans())
    c['strength'] = draw(st.sampled_from([0, 2.5, -3]))
    return c


@facet('bipole', case_bipole(), quick=400, shards=3)
def bipole(c):
    import empymod
    m = c['m']
    kw = dict(freqtime=c['f'], xdirect=c['xd'], verb=0,
              strength=c['strength'], **gen.mkw(m))
    A = np.asarray(empymod.bipole(
        c['src'], c['rec'], msrc=c['msrc'], mrec=c['mrec'],
        srcpts=c['nsrc'], recpts=c['nrec'], **kw))
    B = np.asarray(empymod.bipole(
        c['rec'], c['src'], msrc=c['mrec'], mrec=c['msrc'],
        srcpts=c['nrec'], recpts=c['nsrc'], **kw))
    # Scale: the strongest orientation.
    T = sym.tensor([0, 0, c['zs']], [*c['xy'], c['zr']], c['f'], m,
                   xdirect=c['xd'],
                   abs_=sym.GROUPS[c['mrec'], c['msrc']])
    L = 1.
    if c['strength']:
        L = abs(c['strength'])
        for n in ('src', 'rec'):
            if len(c[n]) == 6:
                L *= np.linalg.norm(np.diff(np.reshape(c[n], (3, 2))))
    s = L*np.max([np.abs(v) for v in T.values()], axis=0)
    s = np.maximum(s, np.maximum(np.abs(A), np.abs(B)))
    sg = -1 if c['msrc'] != c['mrec'] else 1
    # (coordinates of finite bipoles are rounded to millimetres)
    sym.same('bipole reciprocity', (c['msrc'], c['mrec']), A, sg*B, s,
             1e-5 + sym.tol(m))
    return sym.labels(c) if np.any(A) else None
