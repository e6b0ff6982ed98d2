import copy
import threading

import numpy as np
from hypothesis import strategies as st

from vf import child, gen, warm as _warm
from vf.core import facet, Violation
from vf.props import calls

ID = 'U03'
TITLE = 'Calls are pure: inputs stay untouched, results depend on them only'
RULE = ('Random valid calls of all modelling routines and of the building '
        'blocks (checks, kernels, transforms), with arrays, lists, read-only '
        'arrays and nested dictionaries; random histories of valid and failing '
        'calls; sets of calls in concurrent threads. Oracle: deep snapshots of '
        'the inputs, and the bits of the result of the same call made alone '
        'in a fresh child process. Non-trivial: at least one call returned '
        'numbers.')
ASSUMPTIONS = ['Threads interleave at the points chosen by the interpreter '
               '(switch interval 0.1 ms).']


def warm():
    _warm.kernel(half=True, rev=True)
    calls.warm()


def freeze(x):
    """Everything observable of an input."""
    if isinstance(x, np.ndarray):
        return ('a', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, dict):
        return ('d', [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if callable(x) and not hasattr(x, 'base'):
        return ('f', x.__name__)
    if hasattr(x, 'base') and hasattr(x, 'factor'):
        return ('filt', freeze(dict(x.__dict__)))
    return (type(x).__name__, repr(x))


def bits(r):
    return [(a.shape, a.dtype.str, np.ascontiguousarray(a).tobytes())
            for a in r]


def same(a, b, what, tol=0.):
    if len(a) != len(b):
        raise Violation(f'{what}: {len(b)} instead of {len(a)} results')
    for x, y in zip(a, b):
        if x[:2] != y[:2]:
            raise Violation(f'{what}: {y[:2]} instead of {x[:2]}')
        if x[2] != y[2]:
            p = np.frombuffer(x[2], x[1])
            q = np.frombuffer(y[2], y[1])
            if tol and np.allclose(q, p, rtol=tol, equal_nan=True, atol=tol*
                                   np.nanmax(np.abs(p))):
                continue
            raise Violation(f'{what}: {q[:3]} instead of {p[:3]}')


def val(out, what):
    if out[0] != 'ok':
        raise Violation(f'{what}: {out[1]}')
    return out[1]


def lock(x):
    """All arrays read-only, recursively."""
    if isinstance(x, np.ndarray):
        x.setflags(write=False)
    elif isinstance(x, dict):
        for v in x.values():
            lock(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            lock(v)


def one(c, form='array'):
    """Bits of the call."""
    return bits(calls.evaluate(c['fn'], calls.build(c, form == 'list'))[0])


@st.composite
def pcase(draw):
    c = draw(calls.call())
    c['form'] = draw(st.sampled_from(['array', 'array', 'list', 'locked',
                                      'strided']))
    c['small'] = draw(st.integers(0, 3)) == 0
    c['custom'] = draw(st.booleans())
    return c


def small(kw):
    """Zeros and other values below the minima, to be replaced internally."""
    for k in ('res', 'freqtime', 'aniso'):
        if isinstance(kw.get(k), np.ndarray) and kw[k].size:
            kw[k][-1] = 1e-21
    if 'src' in kw and isinstance(kw['src'][0], np.ndarray):
        for i in range(2):
            if len(kw['src']) == 3 and np.shape(kw['rec'][i]):
                kw['rec'][i][0] = np.ravel(kw['src'][i])[0]


@facet('inputs', pcase(), quick=520, shards=4)
def inputs(c):
    from empymod import filters
    form = c['form']
    kw = calls.build(c, form == 'list')
    if c['custom'] and kw.get('ht') == 'dlf':
        f = copy.deepcopy(filters.Hankel().key_51_2012)
        f.base = f.base.copy()
        kw['htarg']['dlf'] = f
    if c['custom'] and kw.get('ft') == 'dlf':
        kw['ftarg']['dlf'] = copy.deepcopy(filters.Fourier().key_81_2009)
    if c['small'] and form != 'list' and kw.get('ht', 'dlf') == 'dlf' \
            and c['fn'] != 'tmtemod' and kw.get('signal') is None:
        small(kw)

    def relay(x):
        if isinstance(x, np.ndarray) and x.ndim == 1:
            b = np.zeros(2*x.size, x.dtype)
            b[::2] = x
            return b[::2]
        if isinstance(x, dict):
            return {k: relay(v) for k, v in x.items()}
        if isinstance(x, list):
            return [relay(v) for v in x]
        return x
    ref_kw = copy.deepcopy(kw)
    if form == 'strided':
        for k in ('src', 'rec', 'freqtime', 'res', 'aniso', 'freq'):
            if k in kw:
                kw[k] = relay(kw[k])
    if form == 'locked':
        for k in kw:
            if k not in ('htarg', 'ftarg', 'wavenumber'):
                lock(kw[k])
    before = freeze(kw)

    def go():
        r, _ = calls.evaluate(c['fn'], kw)
        after = freeze(kw)
        # A result is not a view of an input or internal state
        b1 = bits(r)
        for x in r:
            if x.flags.writeable and x.size:
                x[...] = 3.
        after2 = freeze(kw)
        r2, _ = calls.evaluate(c['fn'], kw)
        return b1, bits(r2), after, after2
    b1, b2, after, after2 = val(child.run(go), c['fn'])
    ref = val(child.run(lambda: bits(calls.evaluate(c['fn'], ref_kw)[0])),
              c['fn'])
    if after != before:
        d = [k for (k, x), (_, y) in zip(before[1], after[1]) if x != y]
        raise Violation(f'{c["fn"]} changed its input {d} ({form})')
    if after2 != before:
        raise Violation(f'{c["fn"]}: the result is a view of the input')
    same(b1, b2, f'{c["fn"]}: second call')
    # (Compiled separately for other layouts: not the same bits)
    same(ref, b1, f'{c["fn"]}: {form} input',
         0. if form in ('array', 'list') else 1e-11)
    return calls.label(c) + [form] + ['minima']*c['small']


BAD = ['ab', 'depth', 'nan', 'ht', 'shape', 'kw']


def bad_call(kind):
    """Calls which fail; whatever they do must leave no trace."""
    import empymod
    a = dict(src=[0, 0, 10], rec=[np.array([100., 200.]), 0., 20.],
             depth=np.array([0., 50.]), res=np.array([1e8, 1., 10.]),
             freqtime=np.array([1., 2.]), verb=0)
    if kind == 'ab':
        a['ab'] = 77
    elif kind == 'depth':
        a['depth'] = np.array([0., 50., 20.])
    elif kind == 'nan':
        a['res'] = np.array([np.nan, 1., 10.])
    elif kind == 'ht':
        a.update(ht='quad', htarg={'a': 'x'})
    elif kind == 'shape':
        a['aniso'] = [1., 2.]
    else:
        a['what'] = 3
    try:
        empymod.dipole(**a)
    except Exception:
        pass


def other(kind):
    import empymod
    from empymod import filters, utils
    if kind == 'minset':
        utils.set_minimum(1e-3, 1e-3, 1., .1, 1e-3)
        empymod.dipole([0, 0, 1], [.1, 0, 2], [], [.01], 1e-4, verb=0)
        utils.set_minimum(1e-20, 1e-20, 1e-3, 1e-20, 1e-10)
    elif kind == 'minget':
        utils.get_minimum()['min_freq'] = 1e5
        utils.get_minimum()['min_off'] = 1e5
    elif kind == 'filt':
        f = filters.DigitalFilter('key_201_2009')
        g = filters.Hankel().key_201_2009
        f.base, f.j0, f.j1 = g.base*2, g.j0*3, g.j1*3
        f.factor = g.factor
        empymod.dipole([0, 0, 1], [100, 0, 2], [], [1.], 1, verb=0,
                       htarg={'dlf': f})
    elif kind == 'hook':
        empymod.dipole([0, 0, 1], [100, 0, 2], [0], {
            'res': np.array([1., 2.]), 'func_eta': calls.f_eta, 'fact': [7., 7.]},
            1, verb=0)
    elif kind == 'result':
        r = empymod.dipole([0, 0, 1], [[100, 200], [0, 0], 2], [], [1.], 1,
                           verb=0)
        r *= 0
    elif kind == 'htarg':
        h = {'dlf': 'key_51_2012', 'pts_per_dec': 3}
        empymod.dipole([0, 0, 1], [100, 0, 2], [], [1.], 1, verb=0, htarg=h)
        h['dlf'] = 5


OTH = ['minset', 'minget', 'filt', 'hook', 'result', 'htarg']
step = st.one_of(
    calls.call().map(lambda c: {'call': c}),
    st.sampled_from(BAD).map(lambda k: {'bad': k}),
    st.sampled_from(OTH).map(lambda k: {'other': k}))


@facet('history', st.tuples(st.lists(step, min_size=1, max_size=6),
                            calls.call()), quick=150, shards=3)
def history(c):
    hist, last = c
    ref = val(child.run(lambda: one(last)), last['fn'])

    def go():
        import empymod
        from empymod import filters
        warn = np.geterr()
        m0 = empymod.get_minimum()
        res = []
        for s in hist:
            if 'call' in s:
                res.append(one(s['call']))
            elif 'bad' in s:
                bad_call(s['bad'])
            else:
                other(s['other'])
        out = one(last)
        st_ = (np.geterr() == warn, empymod.get_minimum() == m0,
               freeze(filters.Hankel().key_201_2009),
               freeze(filters.Fourier().key_201_2012))
        return res, out, st_
    res, out, st1 = val(child.run(go), 'history')
    same(ref, out, f'{last["fn"]} after {[list(s.items())[0] if "call" not in s else s["call"]["fn"] for s in hist]}')
    if not st1[0] or not st1[1]:
        raise Violation(f'numpy error state or minima changed: {st1[:2]}')

    def lib():
        from empymod import filters
        return (freeze(filters.Hankel().key_201_2009),
                freeze(filters.Fourier().key_201_2012))
    if val(child.run(lib), 'library') != st1[2:]:
        raise Violation('a filter of the library changed')
    # The same calls in reverse order
    cs = [s['call'] for s in hist if 'call' in s]
    if len(cs) > 1:
        rev = val(child.run(lambda: [one(x) for x in cs[::-1]]), 'reversed')
        for x, a, b in zip(cs, res, rev[::-1]):
            same(a, b, f'{x["fn"]} in reversed history')
    return [last['fn'], f'{len(hist)} steps'] + sorted(
        {list(s.keys())[0] for s in hist})


@facet('threads', st.lists(calls.call(), min_size=2, max_size=4), quick=40,
       shards=2)
def threads(c):
    import sys
    import empymod
    from empymod.scripts import tmtemod
    # Quadratures are slow; one call in the time domain is enough.
    c = [{**x, 'ht': min(x['ht'], 5), 'signal': x['signal'] if i == 0 else None,
          'ft': 0 if x['ft'] == 3 else x['ft']} for i, x in enumerate(c)]
    ref = val(child.run(lambda: [one(x) for x in c]), 'sequential')

    def direct(x, kw):
        kw = dict(kw)
        verb = kw.pop('verb', 0)
        f = (tmtemod.dipole if x['fn'] == 'tmtemod' else
             getattr(empymod.model, x['fn']))
        r = f(verb=verb, **kw)
        return bits([np.array(y) for y in r] if isinstance(r, (tuple, list))
                    else [np.array(r)])

    def go():
        kws = [calls.build(x) for x in c]
        sys.setswitchinterval(1e-4)
        out = [[] for _ in c]
        gate = threading.Barrier(2*len(c))

        def work(i):
            gate.wait()
            for _ in range(2):
                try:
                    out[i].append(('ok', direct(c[i], kws[i])))
                except Exception as e:
                    out[i].append(('exc', f'{type(e).__name__}: {e}'))
        # Two threads share the very same input
        ts = [threading.Thread(target=work, args=(i,))
              for i in range(len(c)) for _ in range(2)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return out
    out = val(child.run(go), 'threads')
    for x, a, rs in zip(c, ref, out):
        for r in rs:
            same(a, val(r, f'{x["fn"]} in a thread'), f'{x["fn"]} in a thread')
    return [f'{len(c)} calls'] + [x['fn'] for x in c]


# Building blocks ------------------------------------------------------------

def blocks():
    """name -> (callable, maker of arguments)"""
    from empymod import filters, kernel, transform, utils
    from vf import ref
    A = np.array

    def ez(c):
        e = [ref.eta_zeta(f, c['r'], c['an'], [1, 2], [1, 2], [1, 1.5],
                          [1, 1.5]) for f in c['f']]
        return tuple(np.array([x[i] for x in e]) for i in range(4))

    def ab_(c):
        ab, msrc, mrec = utils.check_ab(c['ab'], 0)
        return dict(ab=ab, msrc=msrc, mrec=mrec)

    def kern(c):
        etaH, etaV, zetaH, zetaV = ez(c)
        return dict(zsrc=A(1.), zrec=A(c['z']), lsrc=A(0),
                    lrec=A(int(c['z'] > 5.)),
                    depth=A([-np.inf, 5.]), etaH=etaH, etaV=etaV, zetaH=zetaH,
                    zetaV=zetaV, lambd=A([[.1, .01, .2]]),
                    xdirect=c['b'], **ab_(c))

    def fs(c):
        etaH, etaV, zetaH, zetaV = ez(c)
        return dict(off=A(c['x']), angle=A(c['y'])/500, zsrc=1., zrec=c['z'],
                    etaH=etaH[:, 0], etaV=etaV[:, 0], zetaH=zetaH[:, 0],
                    zetaV=zetaV[:, 0], **ab_(c))

    def four(c, ft, ftarg, **kw):
        t, f, ft_, fa = utils.check_time(A(c['t']), c['sig'], ft, ftarg, 0)
        f = np.ravel(f)
        fe = 1/(1+2j*np.pi*f)
        return dict(fEM=fe, time=t, freq=f, ftarg=fa)

    b = {
        'check_model': (utils.check_model, lambda c: dict(
            depth=A([0., 7.][:c['n']-1]), res=A(c['r3'][:c['n']]),
            aniso=A(c['r3'][:c['n']]), epermH=A(c['r3'][:c['n']]),
            epermV=A(c['r3'][:c['n']]), mpermH=A(c['r3'][:c['n']]),
            mpermV=A(c['r3'][:c['n']]), xdirect=c['b'], verb=0)),
        'check_frequency': (utils.check_frequency, lambda c: dict(
            freq=A(c['f']), res=A(c['r']), aniso=A(c['an']),
            epermH=A([1., 2]), epermV=A([1., 2]), mpermH=A([1., 2]),
            mpermV=A([1., 2]), verb=0)),
        'check_time': (utils.check_time, lambda c: dict(
            time=A(c['t']), signal=c['sig'], **c['ft'], verb=0)),
        'check_hankel': (utils.check_hankel, lambda c: dict(**c['ht'],
                                                            verb=0)),
        'check_dipole': (utils.check_dipole, lambda c: dict(
            inp=[A(c['x']), A(c['y']), A(c['z'])], name='src', verb=0)),
        'check_bipole': (utils.check_bipole, lambda c: dict(
            inp=[A(c['x']), A(c['x'])+2, A(c['y']), A(c['y']), A([c['z']]),
                 A([c['z']])], name='src')),
        'get_off_ang': (utils.get_off_ang, lambda c: dict(
            src=[A([0.]), A([0.]), A([0.])],
            rec=[A(c['x']), A(c['y']), A([c['z']])], nsrc=1,
            nrec=len(c['x']), verb=0)),
        'get_azm_dip': (utils.get_azm_dip, lambda c: dict(
            inp=[A(c['x']), A(c['y']), A([c['z']]), A([20.]), A([30.])],
            iz=0, ninpz=1, intpts=1, isdipole=True, strength=0, name='src',
            verb=0)),
        'get_layer_nr': (utils.get_layer_nr, lambda c: dict(
            inp=[A(c['x']), A(c['y']), A([c['z']]*2)],
            depth=A([-np.inf, 0., 5.]))),
        'check_waveform': (utils.check_waveform, lambda c: dict(
            time=A(c['t']), nodes=A([0., .3, .7])*1e-1,
            amplitudes=A([0., 1., 0.]), verb=0)),
        'check_loop': (utils.check_loop, lambda c: dict(
            loop='off', ht='dlf', htarg={'pts_per_dec': 0}, verb=0)),
        'get_abs': (utils.get_abs, lambda c: dict(
            msrc=c['b'], mrec=False, srcazm=A(c['y'])/100, srcdip=A(c['y'])/90,
            recazm=A(c['y'])/80, recdip=A(c['y'])/70, verb=0)),
        'get_geo_fact': (utils.get_geo_fact, lambda c: dict(
            ab=c['ab'], srcazm=A(c['y'])/100, srcdip=A(c['y'])/90,
            recazm=A(c['y'])/80, recdip=A(c['y'])/70, msrc=c['b'],
            mrec=False)),
        'wavenumber': (kernel.wavenumber, kern),
        'greenfct': (kernel.greenfct, kern),
        'fullspace': (kernel.fullspace, fs),
        'angle_factor': (kernel.angle_factor, lambda c: dict(
            angle=A(c['y'])/500, **ab_(c))),
        'halfspace': (kernel.halfspace, lambda c: dict(
            off=A(c['x']), angle=A(c['y'])/500, zsrc=1., zrec=c['z'],
            etaH=1/A([c['r']]*len(c['f']))[:, :1],
            etaV=1/A([c['r']]*len(c['f']))[:, :1],
            freqtime=A(c['f'])[:, None]*(1+0j if c['sig2'] is None else 1.),
            ab=[11, 12, 13, 21, 22, 23, 31, 32, 33][c['ab'] % 9],
            signal=c['sig2'], solution=c['sol'])),
        'fourier_dlf': (transform.fourier_dlf, lambda c: four(
            c, 'dlf', {'dlf': 'key_81_2009', 'pts_per_dec': c['ppd']})),
        'fourier_qwe': (transform.fourier_qwe, lambda c: four(
            c, 'qwe', {'pts_per_dec': 10, 'maxint': 20, 'nquad': 11})),
        'fourier_fftlog': (transform.fourier_fftlog, lambda c: four(
            c, 'fftlog', {'q': .1*c['b']})),
        'fourier_fft': (transform.fourier_fft, lambda c: four(
            c, 'fft', {'nfreq': 32, 'dfreq': .1, 'ntot': 64,
                       'pts_per_dec': None if c['b'] else 5})),
        'dlf': (transform.dlf, lambda c: (lambda f, off: dict(
            signal=tuple(np.exp(-np.atleast_2d(f.base/off[:, None]))*(1+1j)
                         for _ in range(3)),
            points=f.base/off[:, None], out_pts=off, filt=f, pts_per_dec=0,
            kind=None, ang_fact=A(c['y'][:1])/500, ab=c['ab']))(
                filters.Hankel().key_51_2012, A([max(c['x'][0], 1.)]))),
    }
    return b


NB = ['check_model', 'check_frequency', 'check_time', 'check_hankel',
      'check_dipole', 'check_bipole', 'get_off_ang', 'get_azm_dip',
      'get_layer_nr', 'check_waveform', 'check_loop', 'get_abs',
      'get_geo_fact', 'wavenumber', 'greenfct', 'fullspace', 'angle_factor',
      'halfspace', 'fourier_dlf', 'fourier_qwe', 'fourier_fftlog',
      'fourier_fft', 'dlf']


@st.composite
def bcase(draw):
    n = draw(st.integers(1, 3))
    ht = draw(st.sampled_from(calls.HT))
    ft = draw(st.sampled_from(calls.FT))
    return {
        'what': draw(st.sampled_from(NB)),
        'n': n, 'r3': [draw(gen.lg(.1, 100)) for _ in range(3)],
        'r': [draw(gen.lg(.1, 100)), draw(gen.lg(.1, 100))],
        'an': [1., draw(gen.lg(.5, 2))],
        'f': [draw(gen.lg(.1, 10)) for _ in range(n)],
        't': sorted({draw(gen.lg(.1, 10)) for _ in range(n)}),
        'x': [draw(gen.un(-500, 500)) for _ in range(n)],
        'y': [draw(gen.un(-500, 500)) for _ in range(n)],
        'z': draw(gen.un(1.5, 30)), 'b': draw(st.booleans()),
        'ab': draw(st.sampled_from(gen.ABS34)),
        'sig': draw(st.sampled_from([-1, 0, 1])),
        'sig2': draw(st.sampled_from([None, -1, 0, 1])),
        'sol': draw(st.sampled_from(['dhs', 'dsplit', 'dtetm', 'dfs'])),
        'ppd': draw(st.sampled_from([0, -1, 10])),
        'ht': {'ht': ht[0], 'htarg': ht[1]},
        'ft': {'ft': ft[0], 'ftarg': ft[1]}}


def outs(x):
    if isinstance(x, (tuple, list)):
        return [y for v in x for y in outs(v)]
    if isinstance(x, dict):
        return [y for k in x for y in outs(x[k])]
    if isinstance(x, np.ndarray):
        return [np.array(x)] if x.dtype != object else []
    if isinstance(x, (int, float, complex, bool, np.generic)):
        return [np.array(x)]
    return []


@facet('blocks', bcase(), quick=800, shards=2)
def blocks_(c):
    fn, mk = blocks()[c['what']]
    kw = mk(c)
    before = freeze(kw)

    def go():
        b = bits(outs(fn(**kw)))
        a1 = freeze(kw)
        return a1, b, bits(outs(fn(**kw)))
    after, b1, b2 = val(child.run(go), c['what'])
    if after != before:
        d = [k for (k, x), (_, y) in zip(before[1], after[1]) if x != y]
        raise Violation(f'{c["what"]} changed its input {d}')
    same(b1, b2, f'{c["what"]}: second call')
    return c['what'] if b1 else None
