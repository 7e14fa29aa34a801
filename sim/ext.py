"""The compiled Kepler solver, from /repo's current sources: the in-place build when it is up to date, else a scratch build."""
import glob, hashlib, importlib.machinery, importlib.util, os, shutil, subprocess, sys, tempfile

REPO = '/repo'


def _sha(fn):
    return hashlib.sha256(open(fn, 'rb').read()).hexdigest()


def sources():
    return sorted(f for f in glob.glob(REPO + '/src/**/*', recursive=True) if os.path.isfile(f) and not f.endswith('_kepler.c'))


def inplace():
    """Path of the in-place extension if the build stamp says that it was made from the current sources."""
    so = glob.glob(REPO + '/radvel/_kepler*.so')
    stamp = REPO + '/build/vp-ext.sha256'
    if len(so) != 1 or not os.path.exists(stamp):
        return None
    want = dict(reversed(l.split(None, 1)) for l in open(stamp).read().splitlines() if l.strip())
    want = {k.strip(): v for k, v in want.items()}
    have = {os.path.relpath(f, REPO): _sha(f) for f in sources() + so + [REPO + '/setup.py']}
    if any(want.get(k) != v for k, v in have.items()) or any(k.startswith('src/') and k not in have for k in want):
        return None
    return so[0]


def scratch(cache):
    h = hashlib.sha256()
    for f in sources() + [REPO + '/setup.py']:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    d = os.path.join(cache, 'ext-' + h.hexdigest()[:16])
    so = glob.glob(d + '/_kepler*.so')
    if so:
        return so[0]
    tmp = tempfile.mkdtemp(prefix='ext.', dir=cache)
    try:
        shutil.copytree(REPO + '/src', tmp + '/src', ignore=shutil.ignore_patterns('_kepler.c'))
        shutil.copy(REPO + '/setup.py', tmp)
        env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
        p = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--build-lib', 'out', '--build-temp', 'obj'], cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        so = glob.glob(tmp + '/out/radvel/_kepler*.so')
        if p.returncode or not so:
            raise RuntimeError('cannot build the extension:\n' + p.stdout.decode()[-2000:])
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, os.path.basename(so[0]))
        shutil.copy(so[0], dst + '.tmp')
        os.replace(dst + '.tmp', dst)
        return dst
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Finder(object):
    """Makes 'import radvel._kepler' load the given file (or fail, when blocked)."""

    def __init__(self, path):
        self.path, self.blocked = path, None

    def find_spec(self, name, path=None, target=None):
        if name != 'radvel._kepler':
            return None
        if self.blocked:
            raise self.blocked
        loader = importlib.machinery.ExtensionFileLoader(name, self.path)
        return importlib.util.spec_from_file_location(name, self.path, loader=loader)


FINDER = None


def install(cache):
    global FINDER
    so = inplace() or scratch(cache)
    FINDER = Finder(so)
    sys.meta_path.insert(0, FINDER)
    return so
