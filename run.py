#!/usr/bin/env python3
"""Runs one check:  run.py C03 [--tier quick|thorough] [--seed N] [--replay FILE] [--runs N] [--jobs N]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: error of the check."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
BUILD = os.path.join(HERE, 'build')


def bootstrap():
    """Compile the shim if needed and re-execute under it, with everything pinned that is read at interpreter start."""
    import hashlib, subprocess
    src = os.path.join(HERE, 'sim', 'shim.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    so = os.path.join(BUILD, 'shim-%s.so' % h)
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = so + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-w', '-U_FORTIFY_SOURCE', '-o', tmp, src, '-ldl'], check=True)
        os.replace(tmp, so)
    env = dict(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME='/root', LANG='C.UTF-8',
               LD_PRELOAD=so, PYTHONHASHSEED=os.environ.get('SIM_HASHSEED', '0'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               RADVEL_DATADIR='/repo/example_data', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
               NUMEXPR_NUM_THREADS='1', SIM_CHILD='1', HDF5_USE_FILE_LOCKING='BEST_EFFORT', TZ='UTC')
    for k in ('VERIF_SEED', 'VERIF_TIER', 'SIM_DEBUG', 'SIM_JOBS'):
        if k in os.environ:
            env[k] = os.environ[k]
    os.execve(PY, [PY, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    if os.environ.get('SIM_CHILD') != '1':
        bootstrap()
    sys.path.insert(0, '/repo')
    sys.path.insert(0, HERE)
    from sim import runner
    if sys.argv[1:] == ['--setup']:
        from sim import ext
        print('extension: %s' % ext.install(BUILD))
        sys.exit(0)
    sys.exit(runner.main(HERE, BUILD, sys.argv[1:]))
