"""C22 at run time: the other properties' inputs on a library built with AddressSanitizer, and on one whose
fresh memory is filled with NaN patterns."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ORDER = ['c21', 'c08', 'c06', 'c16', 'c17', 'c09', 'c12', 'c13', 'c14', 'c11', 'c18', 'c19', 'c27', 'c04', 'c05', 'c10', 'c15', 'c26', 'c07', 'c01', 'c02', 'c03', 'c23', 'c24']


def run(c):
    sys.path.insert(0, os.path.dirname(HERE))
    from cv import build
    tmp = tempfile.mkdtemp(prefix='nmtv22')
    try:
        go(c, tmp, build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def go(c, tmp, build):
    asan = os.path.join(tmp, 'asan')
    build.build(asan, asan=True)
    nan = os.path.join(tmp, 'nan.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', nan, os.path.join(HERE, 'nanm.c'), '-ldl'], check=True)
    lib = lambda f: subprocess.run(['gcc', '-print-file-name=' + f], capture_output=True, text=True).stdout.strip()
    mods = [m for m in ORDER if os.path.exists(os.path.join(HERE, m + '.py'))]
    jobs = [(m, k) for m in mods for k in ('address', 'fill')]
    each = 60 if c.thorough else 5
    base_lib = os.environ.get('NMT_LIBDIR')

    def one(job):
        m, kind = job
        if not c.more(): return job, None, '', None, None
        e = build.env(asan if kind == 'address' else base_lib)
        e['OMP_NUM_THREADS'] = '2'; e['VERIF_SEED'] = str(c.seed + 100); e['VERIF_TIER'] = c.tier
        if kind == 'address':
            e['LD_PRELOAD'] = lib('libasan.so') + ' ' + lib('libstdc++.so')
            e['ASAN_OPTIONS'] = 'detect_leaks=0:verify_asan_link_order=0:exitcode=77:allocator_may_return_null=1'
        else:
            e['LD_PRELOAD'] = nan
        out = os.path.join(tmp, m + kind + '.json')
        try:
            p = subprocess.run([build.PY, '-m', 'conc.run', m.upper(), out, str(each)], cwd=tmp, env=e, capture_output=True, text=True, timeout=240 if not c.thorough else 900)
        except subprocess.TimeoutExpired:
            return job, None, '', None, None
        d = json.load(open(out)) if os.path.exists(out) else None
        cur = json.load(open(out + '.cur')) if os.path.exists(out + '.cur') else None
        return job, p.returncode, p.stderr, d, cur
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for (m, kind), rc, err, d, cur in res:
        if rc is None: continue
        c.case(inputs_of=m.upper(), kind=kind, last_case=cur)
        if kind == 'address':
            i = err.find('ERROR: AddressSanitizer')
            ok = c.true('no access outside live arrays', i < 0 and rc != 77, err[i:i + 600])
            if ok: c.true('no crash', rc >= 0, 'signal %d: %s' % (-rc, err[-400:]))
        else:
            c.true('no crash', rc >= 0, 'signal %d: %s' % (-rc, err[-400:]))
            bad = [f for f in (d or {}).get('failures', []) if 'nan' in str(f.get('detail')).lower()]
            c.true('no result from memory that was never written', not bad, bad[:1])
        for k in range(min(2000, (d or {}).get('evaluations', 0))):
            c.evals += 1
