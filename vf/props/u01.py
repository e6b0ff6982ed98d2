import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen, warm as _warm
from vf.core import facet, Violation
from vf.props import calls

ID = 'U01'
TITLE = 'Input is validated: equivalent notations agree, bad input is rejected'
RULE = ('Random valid calls of all routines. (a) Each argument rewritten in an '
        'equivalent notation: scalar, list, tuple, array, integers, repeated '
        'coordinates, default values spelled out, infinite bounds of the '
        'depths, filter by name or instance, mixed case. Oracle: same numbers. '
        '(b) One argument corrupted. Oracle: an exception meant for the user '
        'instead of numbers. Non-trivial: something was rewritten or '
        'corrupted.')
ASSUMPTIONS = ['Relative difference of 1e-10 between notations (compiled '
               'for other memory layouts).']


def warm():
    _warm.kernel(half=True, rev=True)


# Notations ------------------------------------------------------------------

def scalar(x, how):
    """Equivalent notation of a number, list, or array."""
    a = np.asarray(x, dtype=float)
    if how == 'list':
        return a.tolist()
    if how == 'tuple' and a.ndim:
        return tuple(a.tolist())
    if how == 'array':
        return a.copy()
    if how == 'scalar' and a.size == 1:
        return float(a.ravel()[0])
    if how == 'int' and np.all(a == np.round(a)) and np.all(np.abs(a) < 1e6):
        return a.astype(int).tolist()
    if how == 'npint' and np.all(a == np.round(a)) and np.all(
            np.abs(a) < 1e6):
        return a.astype(int)
    if how == 'one' and a.ndim == 0:
        return a.ravel()
    return x


HOW = ['list', 'tuple', 'array', 'scalar', 'int', 'npint', 'one', 'as']


@st.composite
def fcase(draw):
    c = draw(calls.call())
    c['ht'] = min(c['ht'], 7)
    if draw(st.booleans()):
        # Integer values
        c['sx'] = [float(round(x)) for x in c['sx']]
        c['rx'] = [float(round(x)) for x in c['rx']]
        c['m']['res'] = [float(max(1, round(x))) for x in c['m']['res']]
    return {'c': c, 'how': {k: draw(st.sampled_from(HOW)) for k in
                            ['depth', 'res', 'aniso', 'epermH', 'epermV',
                             'mpermH', 'mpermV', 'freqtime', 'freq', 'x', 'y',
                             'z', 'a', 'd', 'signal', 'wavenumber']},
            'rep': draw(st.booleans()), 'inf': draw(st.integers(0, 3)),
            'def': draw(st.booleans()), 'case': draw(st.booleans()),
            'inst': draw(st.booleans()), 'tup': draw(st.booleans()),
            'ab': draw(st.sampled_from(['int', 'np', 'float', 'str', 'arr']))}


def rewrite(kw, d):
    c, how = d['c'], d['how']
    fn = c['fn']
    kw = copy.copy(kw)
    done = []
    if 'depth' in kw and fn != 'tmtemod':
        dep = np.asarray(kw['depth'], float)
        core = dep[np.isfinite(dep)]
        if core.size > 1 and core[0] > core[-1]:
            up, dn = [np.inf], [-np.inf]
        else:
            up, dn = [-np.inf], [np.inf]
        if d['inf'] and not (core.size == 1 and d['inf'] == 2):
            # (one interface and a lower bound only: depth of two values)
            dep = np.r_[up if d['inf'] & 1 else [], core,
                        dn if d['inf'] & 2 else []]
            done.append('inf')
        else:
            dep = core
        kw['depth'] = scalar(dep, how['depth']) if np.isfinite(dep).all() \
            else (dep.tolist() if how['depth'] == 'list' else dep)
        if core.size == 0 and not d['inf']:
            kw['depth'] = []
    for k in ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'):
        if k in kw and not isinstance(kw[k], dict) and fn != 'tmtemod':
            kw[k] = scalar(kw[k], how[k])
            done.append(how[k])
        elif k == 'res' and k in kw and isinstance(kw[k], dict):
            kw[k] = {**kw[k], 'res': scalar(kw[k]['res'], how[k])}
    n = np.size(kw['res']['res'] if isinstance(kw['res'], dict) else kw['res'])
    if d['def'] and fn != 'tmtemod':
        for k in ('aniso', 'epermH', 'mpermH'):
            if k not in kw:
                kw[k] = np.ones(n)
                done.append('default')
        for k in 'em':
            if k+'permV' not in kw:
                kw[k+'permV'] = np.array(kw[k+'permH'])
    if fn != 'tmtemod':
        for k in ('freqtime', 'freq'):
            if k in kw:
                kw[k] = scalar(kw[k], how[k])
                done.append(how[k])
        for k in ('src', 'rec'):
            v = list(kw[k])
            fin = len(v) == 6
            nn = max(np.size(x) for x in v)
            if d['rep'] and not fin and len(v) in (3, 5):
                # Spell out the broadcasting of the depth and angles if that
                # does not change the order of the loops
                for i in ([0, 1] if np.size(v[2]) == 1 else [0, 1, 2]):
                    if np.size(v[i]) == 1:
                        v[i] = np.repeat(np.ravel(v[i]), nn)
                        done.append('repeated')
            lab = ['x', 'x', 'y', 'y', 'z', 'z'] if fin else [
                    'x', 'y', 'z', 'a', 'd']
            v = [scalar(x, how[lab[i]]) for i, x in enumerate(v)]
            kw[k] = tuple(v) if d['tup'] else v
    if 'ab' in kw:
        ab = kw['ab']
        kw['ab'] = {'int': ab, 'np': np.int64(ab), 'float': float(ab),
                    'str': str(ab), 'arr': np.array(ab)}[d['ab']]
        if fn == 'ip_and_q' and d['ab'] in ('str', 'arr'):
            kw['ab'] = ab
        done.append('ab '+d['ab'])
    if kw.get('signal') is not None and not isinstance(kw['signal'], dict):
        kw['signal'] = {'int': int, 'npint': np.int64}.get(
                how['signal'], float)(kw['signal'])
    if d['case']:
        for k in ('ht', 'ft'):
            if k in kw:
                kw[k] = kw[k].upper()
                done.append('case')
    if d['inst']:
        from empymod import filters
        ha = kw.get('htarg')
        if kw.get('ht', '').lower() == 'dlf' and ha is not None:
            name = ha.get('dlf', 'key_201_2009')
            kw['htarg'] = {**ha, 'dlf': getattr(filters.Hankel(), name)}
            done.append('instance')
        fa = kw.get('ftarg')
        if kw.get('ft', '').lower() == 'dlf' and fa is not None:
            name = fa.get('dlf', 'key_201_2012')
            kw['ftarg'] = {**fa, 'dlf': getattr(filters.Fourier(), name)}
    return kw, done


@facet('notation', fcase(), quick=400, shards=4)
def notation(d):
    c = d['c']
    fn = c['fn']
    kw = calls.build(c)
    ref, _ = calls.evaluate(fn, kw)
    kw2, done = rewrite(kw, d)
    got, _ = calls.evaluate(fn, kw2)
    for a, b in zip(ref, got):
        if a.shape != b.shape:
            raise Violation(f'{fn}: shape {b.shape} instead of {a.shape} '
                            f'({done})')
        sc = np.max(np.abs(a)) if a.size else 0
        if not np.allclose(a, b, rtol=1e-8, atol=1e-10*sc, equal_nan=True):
            raise Violation(f'{fn}: {b.ravel()[:3]} instead of '
                            f'{a.ravel()[:3]} ({done})')
    return [fn] + sorted(set(done)) if done else None


# Corruptions ----------------------------------------------------------------

PAR = ['res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV']
BAD = {
    'len': 'wrong number of values of a layer property',
    'depth': 'depths neither increasing nor decreasing',
    'depthlen': 'another interface',
    'ragged': 'coordinates of different length',
    'ncoord': 'wrong number of coordinates',
    'point': 'a point in the format of a finite bipole',
    'ab': 'invalid ab',
    'ht': 'unknown Hankel transform',
    'ft': 'unknown Fourier transform',
    'hfilt': 'unknown Hankel filter',
    'ffilt': 'unknown Fourier filter',
    'hattr': 'a filter without the coefficients',
    'fattr': 'a filter without the coefficients',
    'kind': 'neither sine nor cosine',
    'signal': 'unknown signal',
    'wave': 'waveform not starting before the times',
    'kwarg': 'unknown argument',
    'solution': 'unknown solution',
    'magnetic': 'diffusive solution of magnetic dipoles',
    'fstime': 'full-space in the time domain',
    'coplanar': 'in-phase and quadrature of electric dipoles',
    'ipqtime': 'in-phase and quadrature in the time domain',
    'text': 'text instead of a number',
    'missing': 'a required argument is missing',
    'hooklen': 'wrong number of values of an additional parameter',
    'tmsplit': 'source and receiver in different layers (TM/TE)',
    'tmhalf': 'one layer only (TM/TE)',
    'unit': 'text instead of a coordinate',
}


@st.composite
def rcase(draw):
    c = draw(calls.call())
    c['ht'] = min(c['ht'], 7)
    return {'c': c, 'bad': draw(st.sampled_from(sorted(BAD))),
            'i': draw(st.integers(0, 11)), 'v': draw(st.integers(0, 11)),
            'verb': draw(st.sampled_from([0, 1, 4]))}


def corrupt(kw, d):
    """Returns corrupted arguments, or None."""
    c, bad, i, v = d['c'], d['bad'], d['i'], d['v']
    fn = c['fn']
    lst = [k for k in PAR if k in kw and not isinstance(kw[k], dict)]
    tm = fn == 'tmtemod'
    if bad == 'len':
        if not lst:
            return None
        k = lst[i % len(lst)]
        x = np.atleast_1d(kw[k])
        if x.size == 1 and fn == 'analytical':
            kw[k] = np.r_[x, x]
        elif v % 2 or x.size < 2:
            kw[k] = np.r_[x, x[-1:]]
        else:
            kw[k] = x[:-1]
    elif bad == 'depth':
        if fn == 'analytical' or tm:
            return None
        kw['depth'] = np.array([[0., 10., 5.], [5., 0., 10.],
                                [-np.inf, 10., 5., 20.]][i % 3])
        n = 4
        for k in PAR:
            if k in kw and isinstance(kw[k], dict):
                kw[k] = np.ones(n)
            elif k in kw:
                kw[k] = np.ones(n)
    elif bad == 'depthlen':
        if fn == 'analytical' or 'depth' not in kw:
            return None
        dep = np.atleast_1d(kw['depth'])
        fin = dep[np.isfinite(dep)]
        if fin.size > 1 and fin[0] > fin[-1]:
            kw['depth'] = np.r_[dep, dep[-1]-3]
        else:
            kw['depth'] = np.r_[dep, (fin[-1] if fin.size else 0)+7]
    elif bad == 'ragged':
        k = ['src', 'rec'][i % 2]
        x = list(kw[k])
        j = [0, 1, 2, 3, 4][v % len(x) % 5]
        x = [np.ones(2)*np.ravel(y)[0] for y in x]
        if len(x) == 6:
            x[1] = x[0] + 3.
        x[j] = np.array([1., 2., 3.])
        if len(x) == 3 and j == 2:      # z: one value only
            pass
        kw[k] = x
    elif bad == 'ncoord':
        k = ['src', 'rec'][i % 2]
        x = list(kw[k])
        if len(x) == 3:
            kw[k] = x[:2] if v % 2 else x + [0.]
            if v % 3 == 2:
                kw[k] = x + [0., 0.]
        else:
            kw[k] = [x[:4], x[:3], x + [0.]*(7-len(x)), x[:2]][v % 4]
    elif bad == 'point':
        if fn != 'bipole':
            return None
        k = ['src', 'rec'][i % 2]
        kw[k] = [5., 5., 10., 10., 20., 20.] if v % 2 else [
            [5., 5.], [5., 9.], [1., 1.], [1., 1.], [20.], [20.]]
    elif bad == 'ab':
        if 'ab' not in kw:
            return None
        kw['ab'] = [0, 10, 17, 71, 67, 99, -11, 111, None, [], 'xx', 1][v]
    elif bad == 'ht':
        if 'ht' not in kw:
            return None
        kw['ht'] = ['', 'a', 'ua', 'dl', 'fht', 'dlff', 'qw', 'qwe ', 'qua',
                    'fft', 'sin', 'none'][v]
        kw['htarg'] = {}
    elif bad == 'ft':
        if 'ft' not in kw:
            return None
        kw['ft'] = ['', 'a', 'ff', 'dl', 'fht', 'dlff', 'qw', 'qwe ', 'log',
                    'quad', 'fftlo', 'none'][v]
        kw['ftarg'] = {}
    elif bad == 'hfilt':
        if 'ht' not in kw:
            return None
        kw['ht'], kw['htarg'] = 'dlf', {'dlf': ['', 'key', 'key_81_2009',
                                                'nofilt'][v % 4]}
    elif bad == 'ffilt':
        if 'ft' not in kw:
            return None
        kw['ft'], kw['ftarg'] = 'dlf', {'dlf': ['', 'key', 'kong_61_2007b',
                                                'nofilt'][v % 4]}
    elif bad in ('hattr', 'fattr'):
        from empymod import filters
        k, n, full = ('ht', 'htarg', filters.Hankel().key_51_2012) \
            if bad == 'hattr' else ('ft', 'ftarg',
                                    filters.Fourier().key_81_2009)
        if k not in kw:
            return None
        f = filters.DigitalFilter('x')
        names = ['base', 'factor'] + (['j0', 'j1'] if bad == 'hattr' else
                                      ['sin', 'cos'])
        out = names[v % 4]
        for x in names:
            if x != out:
                setattr(f, x, getattr(full, x))
        kw[k], kw[n] = 'dlf', {'dlf': f}
        if bad == 'fattr':
            sig = kw.get('signal', 0)
            if fn == 'gpr':
                sig = 0
            if isinstance(sig, dict):
                sig = 0
            need = 'cos' if sig == -1 else 'sin'
            if out in ('sin', 'cos') and out != need:
                return None
    elif bad == 'kind':
        if 'ft' not in kw or kw.get('signal', 0) not in (0,):
            return None
        kw['ft'], kw['ftarg'] = 'dlf', {'kind': ['tan', '', 'j0'][v % 3]}
    elif bad == 'signal':
        if 'signal' not in kw or kw['signal'] is None or fn == 'tmtemod':
            return None
        kw['signal'] = [2, -2, 3, 10, 'x', 5, -3, 99, 7, 2., -4, 4][v]
    elif bad == 'wave':
        if not isinstance(kw.get('signal'), dict):
            return None
        t = np.atleast_1d(kw['freqtime'])
        kw['signal'] = {'nodes': np.array([2., 3.])*np.max(t),
                        'amplitudes': np.array([0., 1.])}
    elif bad == 'kwarg':
        if tm:
            return None
        kw[['unknown', 'freqs', 'Depth', 'htargs'][v % 4]] = 1
    elif bad == 'solution':
        if fn != 'analytical':
            return None
        kw['solution'] = ['', 'f', 'full', 'ds', 'dhs ', 'xs'][v % 6]
    elif bad == 'magnetic':
        if fn != 'analytical':
            return None
        kw['solution'] = ['dfs', 'dhs', 'dsplit', 'dtetm'][v % 4]
        kw['ab'] = [14, 41, 46, 66, 64, 25][i % 6]
        kw.pop('signal', None)
        if isinstance(kw['res'], dict):
            kw['res'] = kw['res']['res']
    elif bad == 'fstime':
        if fn != 'analytical':
            return None
        kw['solution'], kw['signal'] = 'fs', [-1, 0, 1][v % 3]
        kw['freqtime'] = np.abs(kw['freqtime'])
    elif bad == 'coplanar':
        if fn != 'ip_and_q':
            return None
        kw['ab'] = [11, 14, 41, 33, 36, 63][v % 6]
    elif bad == 'ipqtime':
        if fn != 'ip_and_q':
            return None
        kw['signal'] = [0, 1, -1][v % 3]
    elif bad == 'text':
        ks = [k for k in ('res', 'freqtime', 'freq', 'aniso', 'depth')
              if k in kw and not isinstance(kw[k], dict)]
        if not ks:
            return None
        kw[ks[i % len(ks)]] = 'text'
    elif bad == 'missing':
        ks = [k for k in ('src', 'rec', 'res', 'freqtime', 'freq', 'depth')
              if k in kw]
        kw.pop(ks[i % len(ks)])
    elif bad == 'hooklen':
        if not isinstance(kw['res'], dict):
            return None
        x = kw['res']['fact']
        kw['res'] = {**kw['res'], 'fact': np.r_[x, x[-1:]] if v % 2 or
                     len(x) < 3 else x[:-1]}
    elif bad == 'tmsplit':
        if not tm:
            return None
        kw['rec'] = kw['rec'][:2] + [np.array([-50.])]
    elif bad == 'tmhalf':
        if not tm:
            return None
        kw['depth'] = []
        for k in PAR:
            if k in kw:
                kw[k] = kw[k][:1]
    elif bad == 'unit':
        k = ['src', 'rec'][i % 2]
        x = list(kw[k])
        x[v % 3] = ['x', [[1., 2.], [3.]]][i % 2]
        kw[k] = x
    return kw


USER = (ValueError, TypeError, AttributeError, LookupError)


@facet('reject', rcase(), quick=3000, shards=2)
def reject(d):
    fn = d['c']['fn']
    kw = corrupt(calls.build(d['c']), d)
    if kw is None:
        return None
    try:
        r, _ = calls.evaluate(fn, kw, d['verb'])
    except USER:
        return [fn, d['bad']]
    except Exception as e:
        raise Violation(f'{fn}, {BAD[d["bad"]]}: {type(e).__name__}: {e}')
    raise Violation(f'{fn}, {BAD[d["bad"]]}: returned {r[0].ravel()[:3]}')
