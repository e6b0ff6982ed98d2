"""Compile the jitted functions once, in parallel, before the workers fork."""
import os


def _cplx():
    import empymod
    empymod.dipole([0, 0, 1], [10, 10, 2], [0, 5], [1, 2, 3], [1., 2.],
                   verb=0)
    empymod.dipole([0, 0, 1], [10, 10, 2], [0, 5], [1, 2, 3], [1., 2.], ab=44,
                   verb=0, xdirect=True)


def _laplace():
    import empymod
    empymod.dipole([0, 0, 1], [10, 10, 2], [0, 5], [1, 2, 3], [-1., -2.],
                   verb=0)
    empymod.dipole([0, 0, 1], [10, 10, 2], [0, 5], [1, 2, 3], [-1., -2.],
                   verb=0, xdirect=True)


def _half():
    import empymod
    empymod.analytical([0, 0, 1], [10, 10, 2], 1, 1., 'dhs', verb=0)
    empymod.analytical([0, 0, 1], [10, 10, 2], 1, [1., 2.], 'dhs', signal=0,
                       verb=0)


def _halfl():
    import empymod
    empymod.analytical([0, 0, 1], [10, 10, 2], 1, -1., 'dhs', verb=0)


def _rev():
    import numpy as np
    import empymod
    empymod.dipole([0, 0, 1], [10, 10, 2], [5, 0, -np.inf], [1, 2, 3], [1., 2.],
                   verb=0)


def _revl():
    import numpy as np
    import empymod
    empymod.dipole([0, 0, 1], [10, 10, 2], [5, 0, -np.inf], [1, 2, 3], [-1., -2.],
                   verb=0)


def kernel(laplace=True, half=False, rev=False):
    """Children fill numba's on-disk cache, this process then loads it."""
    todo = [_cplx] + [_laplace]*bool(laplace) + [_half, _halfl]*bool(half) + [
            _rev]*bool(rev) + [_revl]*bool(rev and laplace)
    pids = []
    for fn in todo[1:]:
        pid = os.fork()
        if pid == 0:
            try:
                fn()
            except BaseException:
                pass
            finally:
                os._exit(0)
        pids.append(pid)
    for i, fn in enumerate(todo):
        if i == 1:
            for pid in pids:
                os.waitpid(pid, 0)
        try:
            fn()
        except Exception:
            # The facets decide; without this the children would be left.
            pass
