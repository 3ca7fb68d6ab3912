"""Compile the extension from /repo's current working tree into a scratch directory."""
import os, subprocess, sys, sysconfig, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('NMT_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


class BuildError(Exception):
    pass


def pyinc():
    r = subprocess.run([PY, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include());'
                        'print(sysconfig.get_config_var("EXT_SUFFIX"))'], capture_output=True, text=True, check=True)
    return r.stdout.split()


def build(out, asan=False, opt='-O2'):
    """returns the directory holding the freshly built _nmtlib"""
    os.makedirs(out, exist_ok=True)
    inc, npinc, suf = pyinc()
    src = os.path.join(REPO, 'src')
    files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith('.c')] + \
            [os.path.join(REPO, 'pymaster', 'namaster_wrap.c')]
    incs = ['-I' + src, '-I' + REPO, '-I' + os.path.join(REPO, '_deps', 'include'), '-I' + inc, '-I' + npinc,
            '-I' + os.path.join(HERE, 'fallback')]
    flags = ['-fPIC', '-fopenmp', '-w', '-std=gnu99', '-DNDEBUG']
    flags += ['-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer'] if asan else [opt]

    def cc(f):
        o = os.path.join(out, os.path.basename(f)[:-2] + '.o')
        fl = flags if 'wrap' not in f else [x for x in flags if x != '-O2'] + ['-O0']
        r = subprocess.run(['gcc', *fl, *incs, '-c', f, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f + '\n' + r.stderr[-2000:])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, files))
    so = os.path.join(out, '_nmtlib' + suf)
    libs = ['-lchealpix', '-lfftw3_omp', '-lfftw3', '-lgsl', '-lgslcblas', '-lcfitsio', '-lm']
    r = subprocess.run(['gcc', '-shared', '-fopenmp', *(['-fsanitize=address'] if asan else []), *objs,
                        '-L' + os.path.join(REPO, '_deps', 'lib'), '-Wl,-rpath,' + os.path.join(REPO, '_deps', 'lib'),
                        '-o', so, *libs], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-2000:])
    for o in objs:
        os.unlink(o)
    return out


def env(libdir):
    e = dict(os.environ)
    e['PYTHONPATH'] = libdir + os.pathsep + REPO + os.pathsep + os.path.dirname(HERE)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['NMT_LIBDIR'] = libdir
    return e


if __name__ == '__main__':
    import time
    t = time.time()
    d = tempfile.mkdtemp(prefix='nmtv')
    build(d)
    print(d, time.time() - t)
    print(subprocess.run([PY, '-c', 'import _nmtlib,pymaster;print(_nmtlib.__file__,pymaster.__file__)'], env=env(d), capture_output=True, text=True, cwd='/tmp'))
    shutil.rmtree(d)
