"""Entry point: ``main.py check ID [tier]``, ``main.py replay FILE``, ``main.py setup``."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
PYENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'


def bootstrap():
    """Make hypothesis importable without exposing the rest of that venv."""
    # (sys.path[0] is this directory; replace by explicit entries.)
    sys.path[0] = ROOT
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    site = os.path.join(os.environ.get('VF_WORK', '/tmp'), 'site')
    os.makedirs(site, exist_ok=True)
    ok = os.path.isdir(os.path.join(PYENV, 'hypothesis'))
    if ok:
        for n in os.listdir(PYENV):
            if n.split('-')[0].split('.')[0] in (
                    'hypothesis', '_hypothesis_ftz_detector',
                    '_hypothesis_pytestplugin', '_hypothesis_globals',
                    'sortedcontainers', 'attr', 'attrs'):
                d = os.path.join(site, n)
                if not os.path.lexists(d):
                    os.symlink(os.path.join(PYENV, n), d)
    else:
        import glob
        import zipfile
        for pat in ('hypothesis-*', 'sortedcontainers-*', 'attrs-*'):
            for w in sorted(glob.glob(os.path.join(WHEELS, pat + '.whl'))):
                zipfile.ZipFile(w).extractall(site)
                break
    sys.path.insert(1, site)
    import hypothesis  # noqa


if __name__ == '__main__':
    bootstrap()
    from vf import core
    sys.exit(core.main(sys.argv[1:]))
