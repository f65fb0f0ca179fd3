"""Stage the code under test (current working tree of /repo) in a scratch
directory, with its Fortran extensions built. Never writes in /repo."""
import os, shutil, subprocess, glob

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def _hashes(d):
    return subprocess.run('sha256sum Makefile *.f90', shell=True, cwd=d, stdout=subprocess.PIPE,
                          text=True).stdout.strip()


def base_env():
    e = {k: v for k, v in os.environ.items() if k in ('HOME', 'LANG', 'VERIF_SEED', 'VERIF_TIER')}
    e['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e.setdefault('HOME', '/root')
    e.setdefault('LANG', 'C.UTF-8')
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='3',
             OPENBLAS_NUM_THREADS='1', DISPLAY=':0',
             NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR')
    return e


def driver_env(sb):
    e = base_env()
    e['PYTHONPATH'] = sb['src']
    e['PWV_BIN'] = sb['bin']
    e['MPLCONFIGDIR'] = os.path.join(sb['root'], 'mpl')
    e['TMPDIR'] = sb['tmp']
    return e


def prepare(workdir):
    root = os.path.join(workdir, 'sut')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, 'src'))
    os.makedirs(os.path.join(root, 'tmp'))
    ig = shutil.ignore_patterns('test', '__pycache__', '*.pyc')
    shutil.copytree(os.path.join(REPO, 'src', 'pwtools'), os.path.join(root, 'src', 'pwtools'), ignore=ig)
    shutil.copytree(os.path.join(REPO, 'bin'), os.path.join(root, 'bin'))
    sb = dict(root=root, src=os.path.join(root, 'src'), bin=os.path.join(root, 'bin'), tmp=os.path.join(root, 'tmp'))
    ext = os.path.join(REPO, 'src', '_ext_src')
    stamp = os.path.join(ext, '.vp-stamp')
    pkg = os.path.join(root, 'src', 'pwtools')
    sos = [os.path.join(pkg, n) for n in ('_flib.so', '_dcd.so')]
    ok = (os.path.exists(stamp) and open(stamp).read().strip() == _hashes(ext)
          and all(os.path.exists(s) and os.path.getsize(s) > 0 for s in sos))
    if not ok:
        for s in sos:
            if os.path.exists(s):
                os.remove(s)
        bdir = os.path.join(root, 'src', '_ext_src')
        shutil.copytree(ext, bdir, ignore=shutil.ignore_patterns('*.so', '.vp-stamp'))
        p = subprocess.run(['make', '-C', bdir, 'gfortran-omp', 'ARCH=-march=x86-64-v2'], env=base_env(),
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for s in sos:
            if not os.path.exists(s):
                b = os.path.join(bdir, os.path.basename(s))
                if os.path.exists(b):
                    shutil.copy(b, s)
        if not all(os.path.exists(s) for s in sos):
            sb['broken'] = p.stdout[-1500:]
    return sb
