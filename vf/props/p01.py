import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import gen, warm as _warm
from vf.core import facet, Violation, R
from vf.props import calls
from vf.props.u03 import bits, same

ID = 'P01'
TITLE = 'Data and inputs survive saving and loading'
RULE = ('Random three-dimensional data of all types, layouts and values '
        '(including signed zeros, non-finite and denormalised numbers), texts '
        'and options, in both formats, also over an existing file; random '
        'inputs of the modelling routines. Oracle: the bits of the data after '
        'loading, the meta data in the file, and the result of the call with '
        'the loaded input. Non-trivial: something was loaded and compared.')
ASSUMPTIONS = ['Single precision is restored as double precision by json.']


def warm():
    _warm.kernel(half=True, rev=True)


num = st.one_of(
    gen.pm(1e-20, 1e3),
    st.floats(allow_nan=False, allow_infinity=False, width=64),
    st.sampled_from([0., -0., 1., -1., 5e-324, -2.2e-308, 1.7e308, 1/3, .1,
                     float('inf'), float('-inf'), float('nan')]))
word = st.one_of(
    st.sampled_from(['', 'data', 'my data', 'a: b', '# x', 'shape: (1, 1, 1)',
                     'dtype: int', 'µ Ω', '[1, 2]', '(1,2)', 'info:', '"q"',
                     'a\\b', 'complex', 'float']),
    st.text(alphabet='abc :#(),[]{}"%+.0123456789', max_size=20))


@st.composite
def dcase(draw):
    shape = [draw(st.integers(1, 4)) for _ in range(3)]
    n = int(np.prod(shape))
    finite = draw(st.booleans())
    s = gen.pm(1e-20, 1e3) if finite else num
    return {'shape': shape, 're': [draw(s) for _ in range(n)],
            'im': [draw(s) for _ in range(n)],
            'dtype': draw(st.sampled_from(['c16', 'c16', 'c16', 'f8', 'f8',
                                           'c8', 'f4'])),
            'order': draw(st.sampled_from(['C', 'F', 'view', 'rev'])),
            'em': draw(st.booleans()),
            'fmt': draw(st.sampled_from(['json', 'txt'])),
            'info': draw(st.one_of(st.none(), word)),
            'kw': draw(st.sampled_from([{}, {}, {'indent': None},
                                        {'indent': 4}])),
            'path': draw(st.sampled_from(['abs', 'rel', 'dots'])),
            'over': draw(st.booleans())}


def mk(c):
    dt = np.dtype(c['dtype'])
    a = np.array(c['re'], float)
    if dt.kind == 'c':
        b = a.astype(complex)
        b.imag = c['im']
        a = b
    with np.errstate(all='ignore'):
        a = a.astype(dt).reshape(c['shape'])
    if c['order'] == 'F':
        a = np.asfortranarray(a)
    elif c['order'] == 'view':
        b = np.zeros([2*x for x in a.shape], dt)
        b[::2, ::2, ::2] = a
        a = b[::2, ::2, ::2]
    elif c['order'] == 'rev':
        a = a[::-1, :, ::-1]
    return a


def fbits(x):
    """Bits, but one NaN is like another."""
    x = np.ascontiguousarray(np.asarray(x, dtype=float))
    return np.where(np.isnan(x), np.nan, x).view('u8').ravel().tolist()


@facet('data', dcase(), quick=2500, shards=2)
def data(c):
    import empymod
    from empymod.utils import EMArray
    a = mk(c)
    orig = np.array(a)
    inp = EMArray(a) if c['em'] else a
    kw = dict(c['kw']) if c['fmt'] == 'json' else {}
    if c['info'] is not None:
        kw['info'] = c['info']
    with tempfile.TemporaryDirectory() as d:
        full = os.path.join(d, 'x.y.'+c['fmt'])
        name = {'abs': full, 'rel': os.path.relpath(full),
                'dots': os.path.join(d, '..', os.path.basename(d),
                                     'x.y.'+c['fmt'])}[c['path']]
        if c['over']:
            R(empymod.io.save_data, full, np.ones((7, 3, 3))*(1+1j))
        R(empymod.io.save_data, name, inp, **kw)
        if os.listdir(d) != ['x.y.'+c['fmt']]:
            raise Violation(f'files: {os.listdir(d)}')
        got = R(empymod.io.load_data, name)
        text = open(full, encoding='utf-8').read()
    if not isinstance(got, EMArray):
        raise Violation(f'load_data returns {type(got)}')
    if fbits(orig.real) != fbits(np.array(a).real):
        raise Violation('save_data changed the data')
    if list(got.shape) != c['shape']:
        raise Violation(f'shape {got.shape} instead of {c["shape"]}')
    if np.iscomplexobj(orig) != np.iscomplexobj(got):
        raise Violation(f'type {got.dtype} instead of {orig.dtype}')
    if orig.dtype.itemsize in (8, 16) and orig.dtype != np.dtype('c8') and \
            got.dtype != orig.dtype:
        raise Violation(f'type {got.dtype} instead of {orig.dtype}')
    if fbits(orig.real) != fbits(np.real(got)) or \
            fbits(orig.imag) != fbits(np.imag(got)):
        raise Violation(f'{c["fmt"]}: {np.ravel(got)[:4]} instead of '
                        f'{orig.ravel()[:4]}')
    want = {'shape': str(tuple(c['shape'])), 'dtype': str(orig.dtype),
            'info': c['info'] or '',
            'version': f'empymod v{empymod.__version__}'}
    if c['fmt'] == 'json':
        meta = json.loads(text)
        if meta.keys() - {'data', 'date'} != set(want):
            raise Violation(f'keys {sorted(meta)}')
    else:
        meta = {}
        for line in text.splitlines()[:5]:
            k, v = line[2:].split(':', 1)
            meta[k] = v[1:] if v else v
    for k, v in want.items():
        if meta[k] != v:
            raise Violation(f'meta data {k}: {meta[k]!r} instead of {v!r}')
    return [c['fmt'], c['dtype'], c['path'],
            'finite' if np.isfinite(orig).all() else 'non-finite']


@facet('reject', st.tuples(
    st.sampled_from([(), (2,), (2, 3), (1, 2, 1, 2)]),
    st.sampled_from(['x.json', 'x.txt', 'x.npz', 'x', 'x.jso', 'json',
                     'x.json.gz', 'x.TXT']),
    st.sampled_from(['save_data', 'load_data', 'save_input', 'load_input'])),
    quick=300)
def reject(c):
    """Unknown formats and other dimensions: an error, no file."""
    import empymod
    shape, name, fn = c
    known = name in (['x.json', 'x.txt'] if 'data' in fn else ['x.json'])
    shape = tuple(shape)
    if fn != 'save_data' and known:
        return None
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, name)
        if 'load' in fn:
            open(p, 'w').write('{}')
        args = {'save_data': (p, np.ones(shape)), 'load_data': (p,),
                'save_input': (p, {'a': 1}), 'load_input': (p,)}[fn]
        try:
            getattr(empymod.io, fn)(*args)
        except ValueError:
            if 'save' in fn and os.listdir(d):
                raise Violation(f'{fn}({name}): left {os.listdir(d)}')
            return [fn, str(len(shape))]
        raise Violation(f'{fn}: no error for {name}, dimension {len(shape)}')


@st.composite
def icase(draw):
    c = draw(calls.call(routs=('dipole', 'bipole', 'analytical', 'dipole_k',
                               'ip_and_q')))
    c['hook'] = False
    c['ht'] = min(c['ht'], 5)
    if c['signal'] is not None:
        c['ht'] = 0
    if c['ft'] == 3:
        c['ft'] = 0
    c['inst'] = draw(st.booleans())
    c['list'] = draw(st.booleans())
    c['np'] = draw(st.booleans())
    return c


def plain(x):
    """The json equivalent of an input."""
    if hasattr(x, 'savename'):
        return x.name
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


@facet('input', icase(), quick=300, shards=2)
def input_(c):
    import empymod
    from empymod import filters
    kw = calls.build(c, c['list'])
    if c['inst'] and kw.get('ht') == 'dlf' and 'dlf' in kw['htarg']:
        kw['htarg']['dlf'] = getattr(filters.Hankel(), kw['htarg']['dlf'])
    if c['np']:
        for k in ('ab', 'squeeze', 'srcpts', 'strength'):
            if k in kw:
                kw[k] = {bool: np.bool_, int: np.int64, float: np.float64}[
                        type(kw[k])](kw[k])
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'in.json')
        R(empymod.io.save_input, p, kw)
        got = R(empymod.io.load_input, p)
        text = open(p).read()
    if got != plain(kw) or list(got) != list(kw):
        diff = [k for k in kw if got.get(k) != plain(kw[k])]
        raise Violation(f'input changed: {diff}: {[got.get(k) for k in diff]}')
    if len(text.splitlines()) != len(kw) + 2:
        raise Violation('not one parameter per line')
    a, _ = calls.evaluate(c['fn'], kw)
    if 'wavenumber' in got:     # Documented as array
        got['wavenumber'] = np.array(got['wavenumber'])
    b, _ = calls.evaluate(c['fn'], got)
    same(bits(a), bits(b), f'{c["fn"]} with the loaded input')
    return calls.label(c)[:3]
