"""Shared pieces of the symmetry checks."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation
from vf.props.w01 import tol as wtol

GROUPS = {(r, s): [a*10+b for a in range(1+3*r, 4+3*r)
                   for b in range(1+3*s, 4+3*s)]
          for r in (0, 1) for s in (0, 1)}


def group(ab):
    return GROUPS[ab//10 > 3, ab % 10 > 3]


def tensor(src, rec, freqtime, m, abs_=gen.ABS, **kw):
    """{ab: array} of dipole responses."""
    import empymod
    out = Tensor({ab: np.asarray(empymod.dipole(
            src, rec, freqtime=freqtime, ab=ab, verb=0, **gen.mkw(m), **kw))
            for ab in abs_})
    if kw.get('xdirect', False) is None:
        # A secondary field without contrast is round-off of the total one
        out.total = tensor(src, rec, freqtime, m, abs_, **{**kw,
                                                           'xdirect': False})
    return out


class Tensor(dict):
    total = None


def scale(T, ab):
    """Magnitude of the field at that receiver for that kind of source."""
    s = np.max([np.abs(T[a]) for a in group(ab)], axis=0)
    if getattr(T, 'total', None) is not None:
        s = np.maximum(s, 1e-6*scale(T.total, ab))
    return s


def same(name, ab, a, b, s, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f'{name} ab={ab}: shapes {a.shape} {b.shape}')
    bad = ~(np.abs(a-b) <= tol*s + 1e-200)
    if np.any(bad):
        raise Violation(f'{name} ab={ab}: {a} != {b} (scale {s}, '
                        f'tolerance {tol:.1e})')


def tol(m):
    return 1000*(wtol(m) - 1e-8) + 1e-6


def freq_for(m, zs, zr, xy, p):
    """Frequency with (distance/smallest skin depth) about p, so that the
    response is not attenuated by more than exp(-p): a digital filter is a
    sum of much larger terms otherwise, and only its round-off compared."""
    R = max(np.hypot(*xy), abs(zs-zr), 1.)
    eta = max(1/(r*min(1, a)**2) for r, a in zip(m['res'], m['aniso']))
    f = p**2/(np.pi*4e-7*np.pi*max([*m['mh'], *m['mv'], 1.])*eta*R**2)
    return gen.r4(min(max(f, 1e-5), 1e5))


@st.composite
def base(draw, nmin=1, nmax=6, on_if=True, p=(1e-3, 4.), off=(5., 3000.), nf=2,
         **kw):
    m = draw(gen.layers(nmin, nmax, **{'air': 1e6, **kw}))
    lap = draw(st.integers(0, 3)) == 3
    zs = draw(gen.zin(m['depth'], on_if=on_if))
    zr = draw(gen.zin(m['depth'], on_if=on_if))
    xy = draw(gen.hor(*off))
    return {'m': m,
            'f': [(-1 if lap else 1)*freq_for(m, zs, zr, xy, draw(gen.lg(*p)))
                  for _ in range(nf)],
            'zs': zs, 'zr': zr, 'xy': xy,
            'xd': draw(st.sampled_from([False, True, None]))}


def labels(c):
    from vf import ref
    d = c['m']['depth']
    ls, lr = ref.layer_of(c['zs'], d), ref.layer_of(c['zr'], d)
    return [f'layers={len(d)+1}', 'laplace' if c['f'][0] < 0 else 'freq',
            'same' if ls == lr else 'other',
            f"xdirect={c['xd']}"]
