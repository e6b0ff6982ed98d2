import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from vf import gen, warm as _warm
from vf.core import facet, Violation, R

ID = 'E01'
TITLE = 'Amplitude and phase of the returned arrays'
RULE = ('Random complex and real arrays of zero to three dimensions, types '
        'and memory layouts, and all phase options, also after slicing, '
        'copying and arithmetic. Oracle: amplitude and phase from the real '
        'and imaginary part with an own unwrapping; amplitude times the '
        'exponential of the phase returns the field. Non-trivial: at least '
        'two values.')
ASSUMPTIONS = ['Unwrapping is along the last axis.']


def warm():
    _warm.kernel(laplace=False)


val = st.one_of(
    st.tuples(gen.pm(1e-20, 1e3), gen.pm(1e-20, 1e3)),
    st.sampled_from([(1., 0.), (-1., 0.), (0., 1.), (0., -1.), (1., 1.),
                     (-1., 1e-3), (-1., -1e-3)]))


@st.composite
def case(draw):
    shape = draw(st.sampled_from([(), (1,), (2,), (5,), (12,), (1, 1), (2, 3),
                                  (3, 1), (1, 4), (2, 2, 3), (4, 1, 2)]))
    n = int(np.prod(shape))
    return {'shape': list(shape), 'v': [draw(val) for _ in range(n)],
            'dtype': draw(st.sampled_from(['c16', 'c16', 'c8', 'f8', 'list'])),
            'F': draw(st.booleans()),
            'how': draw(st.sampled_from(['new', 'new', 'slice', 'copy',
                                         'pickle', 'math', 'rev'])),
            'deg': draw(st.sampled_from([None, True, False])),
            'unwrap': draw(st.sampled_from([None, True, False])),
            'lag': draw(st.sampled_from([None, True, False]))}


def unwrap(p):
    """Along the last axis, steps within half a turn."""
    p = np.array(p, float)
    if p.ndim == 0:
        return p
    f = p.reshape(-1, p.shape[-1])
    for r in f:
        for i in range(1, r.size):
            r[i] -= 2*np.pi*np.round((r[i]-r[i-1])/(2*np.pi))
    return f.reshape(p.shape)


@facet('methods', case(), quick=4000)
def methods(c):
    from empymod.utils import EMArray
    z = np.array([complex(*v) for v in c['v']]).reshape(c['shape'])
    if c['dtype'] == 'f8':
        z = z.real.copy()
    elif c['dtype'] == 'c8':
        z = z.astype(np.complex64)
    if c['F']:
        z = np.asfortranarray(z)
    e = R(EMArray, z.tolist() if c['dtype'] == 'list' else z)
    h = c['how']
    if h == 'slice' and z.ndim:
        z, e = z[..., ::2], e[..., ::2]
    elif h == 'rev' and z.ndim:
        z, e = z[::-1], e[::-1]
    elif h == 'copy':
        e = copy.deepcopy(e)
    elif h == 'pickle':
        e = pickle.loads(pickle.dumps(e))
    elif h == 'math':
        z, e = z*2, e*2
    if not isinstance(e, EMArray):
        if not (h in ('math', 'slice') and z.ndim == 0):
            raise Violation(f'{h}: type {type(e)}')
        return None
    if e.shape != z.shape or not np.array_equal(np.asarray(e), z):
        raise Violation(f'values {e} instead of {z}')
    before = np.array(z)
    tol = 1e-5 if z.dtype == np.complex64 else 1e-12
    amp = R(e.amp)
    ex = np.sqrt(z.real.astype(float)**2 + z.imag.astype(float)**2)
    if np.shape(amp) != z.shape or np.any(
            np.abs(np.asarray(amp)-ex) > tol*ex):
        raise Violation(f'amplitude of {z}: {amp} instead of {ex}')
    kw = {k: c[k] for k in ('deg', 'unwrap', 'lag') if c[k] is not None}
    pha = R(e.pha, **kw)
    p = np.arctan2(z.imag.astype(float), z.real.astype(float))
    if kw.get('lag', True) is False:
        p = np.where(z.imag == 0, np.abs(p), -p) if np.iscomplexobj(z) else p
        # The sign of a phase of exactly half a turn is open.
    got = np.asarray(pha)/(180/np.pi if kw.get('deg') else 1)
    if got.shape != z.shape:
        raise Violation(f'phase {kw} of {z}: {pha}')
    # Exactly half a turn: modulo a full turn.
    d = (got - p)/(2*np.pi)
    if np.any(np.abs(d-np.round(d)) > tol):
        raise Violation(f'phase {kw} of {z}: {pha}, in radians {got}, not '
                        f'{p}')
    if kw.get('unwrap', True):
        if z.ndim and np.any(np.abs(np.diff(got, axis=-1)) > np.pi+1e-5):
            raise Violation(f'phase {kw} of {z}: {pha} has steps')
        # Same start
        if z.ndim and z.size and np.any(np.abs(got[..., 0]) > np.pi+1e-5):
            raise Violation(f'phase {kw} of {z}: {pha} starts elsewhere')
        half = np.abs(np.abs(np.diff(p, axis=-1)) % (2*np.pi)-np.pi) < 1e-4 \
            if z.ndim else np.array(False)
        if not np.any(half) and not np.any((z.imag == 0) & (z.real < 0)) \
                and np.any(np.abs(got-unwrap(p)) > 1e-4):
            raise Violation(f'phase {kw} of {z}: {pha} instead of '
                            f'{unwrap(p)}')
    elif np.any(np.abs(got) > np.pi*(1+1e-6)):
        raise Violation(f'phase {kw} of {z}: {pha} not wrapped')
    if not np.array_equal(np.asarray(e), before):
        raise Violation(f'{kw}: the field was changed')
    if z.size < 2:
        return None
    return [f'{k}={v}' for k, v in kw.items()] + [c['dtype'], h,
                                                  f'ndim={z.ndim}']


@st.composite
def case_r(draw):
    return {'fn': draw(st.sampled_from(['dipole', 'bipole', 'analytical',
                                        'time'])),
            'nf': draw(st.integers(1, 4)), 'nr': draw(st.integers(1, 3)),
            'res': draw(gen.lg(.3, 300)), 'f': draw(gen.lg(.1, 100)),
            'lap': draw(st.booleans()), 'squeeze': draw(st.booleans())}


@facet('returned', case_r(), quick=200)
def returned(c):
    """What the modelling routines return."""
    import empymod
    f = c['f']*np.arange(1, c['nf']+1)
    rec = [300.*np.arange(1, c['nr']+1), np.zeros(c['nr']), 20]
    kw = dict(verb=0, squeeze=c['squeeze'])
    if c['fn'] == 'time':
        d = R(empymod.dipole, [0, 0, 10], rec, [0], [1e8, c['res']], 1/f,
              signal=0, **kw)
    elif c['fn'] == 'analytical':
        d = R(empymod.analytical, [0, 0, 10], rec, c['res'],
              -f if c['lap'] else f, **kw)
    elif c['fn'] == 'dipole':
        d = R(empymod.dipole, [0, 0, 10], rec, [0], [1e8, c['res']],
              -f if c['lap'] else f, **kw)
    else:
        d = R(empymod.bipole, [0, 0, 10, 0, 0], rec+[10, 20], [0],
              [1e8, c['res']], -f if c['lap'] else f, **kw)
    if not isinstance(d, empymod.utils.EMArray):
        raise Violation(f'{c["fn"]} returns {type(d)}')
    if not (hasattr(d, 'amp') and hasattr(d, 'pha')):
        raise Violation('no amp or pha')
    real = c['fn'] == 'time' or c['lap']
    if np.iscomplexobj(d) == real:
        raise Violation(f'{c["fn"]}: {d.dtype}')
    z = np.asarray(d)
    a, p = np.asarray(d.amp()), np.asarray(d.pha())
    if np.any(np.abs(a*np.exp(1j*p)-z) > 1e-9*np.abs(z)):
        raise Violation(f'{c["fn"]}: amplitude {a}, phase {p}, field {z}')
    return c['fn']
