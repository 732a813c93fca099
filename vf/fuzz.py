"""Builds and runs the bounded harness of a property against /repo's current sources (clang, ASan+UBSan, libFuzzer)."""
import os, re, subprocess, sys, tempfile, time, shutil, glob, signal
from concurrent.futures import ThreadPoolExecutor
from . import llir

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = '-fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=vptr,function,alignment,float-divide-by-zero,float-cast-overflow,pointer-overflow,nonnull-attribute,returns-nonnull-attribute -fno-sanitize-recover=undefined'.split()
BASE = ['-g', '-O1', '-w', '-DNDEBUG', '-mavx2', '-DJSMN_PARENT_LINKS=1', '-fno-omit-frame-pointer']


def build(prop, work):
    """-> (binary path, error text)"""
    h = os.path.join(HERE, 'harness', prop + '.cc')
    txt = open(h).read()
    skip = set(re.findall(r'^// SKIP: *(\S+)', txt, re.M))
    extra = [x for l in re.findall(r'^// FLAGS: *(.*)', txt, re.M) for x in l.split()]
    libs = [x for l in re.findall(r'^// LIBS: *(.*)', txt, re.M) for x in l.split()]
    csrc = [x for l in re.findall(r'^// CSRC: *(.*)', txt, re.M) for x in l.split()]
    cxx = [x for l in re.findall(r'^// CXXSRC: *(.*)', txt, re.M) for x in l.split()]
    inc = ['-I' + llir.config_dir(), '-I' + os.path.join(llir.REPO, 'include'), '-I' + os.path.join(llir.REPO, 'src')]
    jobs = []
    for f in sorted(glob.glob(os.path.join(llir.REPO, 'src', '*.c'))):
        b = os.path.basename(f)
        if b in ('nx_vector_gen.c', 'nx_log_c_impl.c', 'nx_gc_cairo_imp.c') or b in skip: continue
        jobs.append((['clang', '-std=c11', '-D_GNU_SOURCE'] + BASE + SAN + inc + ['-c', f, '-o', os.path.join(work, b + '.o')], b))
    jobs.append((['clang', '-std=c11', '-D_GNU_SOURCE'] + BASE + inc + ['-c', os.path.join(llir.REPO, 'src', 'SFMT', 'SFMT.c'), '-o', os.path.join(work, 'SFMT.c.o')], 'SFMT.c'))
    for b in csrc:
        jobs.append((['clang', '-std=c11', '-D_GNU_SOURCE'] + BASE + SAN + inc + ['-c', os.path.join(llir.REPO, 'src', b), '-o', os.path.join(work, os.path.basename(b) + '.o')], os.path.basename(b)))
    for b in cxx:
        jobs.append((['clang++', '-std=c++17'] + BASE + SAN + inc + ['-c', os.path.join(llir.REPO, 'src', b), '-o', os.path.join(work, b + '.o')], b))
    jobs.append((['clang++', '-std=c++17', '-I' + os.path.join(HERE, 'harness')] + BASE + SAN + inc + extra + ['-c', h, '-o', os.path.join(work, 'h.o')], 'harness'))
    def one(j):
        r = subprocess.run(j[0], capture_output=True, text=True)
        return (j[1], r.returncode, r.stderr)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    bad = [r for r in res if r[1]]
    if any(b[0] == 'harness' for b in bad): return None, '\n'.join(b[2][-3000:] for b in bad)
    ar = os.path.join(work, 'lib.a')
    subprocess.run(['ar', 'rcs', ar] + [os.path.join(work, r[0] + '.o') for r in res if r[0] != 'harness' and not r[1]], check=True)
    out = os.path.join(work, 'fuzz')
    r = subprocess.run(['clang++', '-fsanitize=fuzzer,address,undefined', os.path.join(work, 'h.o'), ar, '-o', out, '-lm'] + libs, capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:] + ''.join(b[2][-1000:] for b in bad)
    return out, None


def run(prop, seconds, seed, jobs=8, keep=None):
    """-> dict(status='clean'|'crash'|'error', execs, cov, input(bytes), output, wall)"""
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vf_fz_')
    try:
        binp, err = build(prop, work)
        if binp is None: return dict(status='error', output=err, execs=0, wall=time.time() - t0)
        txt = open(os.path.join(HERE, 'harness', prop + '.cc')).read()
        m = re.search(r'^// MAXLEN: *(\d+)', txt, re.M)
        maxlen = int(m.group(1)) if m else 512
        corp = os.path.join(HERE, 'harness', 'corpus', prop)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:malloc_fill_byte=67', UBSAN_OPTIONS='print_stacktrace=1')
        procs = []
        for i in range(jobs):
            d = os.path.join(work, 'j%d' % i); os.makedirs(d); os.makedirs(d + '/c')
            cmd = [binp, '-seed=%d' % (seed * 100 + i + 1), '-max_total_time=%d' % seconds, '-timeout=25', '-rss_limit_mb=3000', '-max_len=%d' % (maxlen if i % 4 else maxlen * 4),
                   '-use_value_profile=%d' % (i % 2), '-detect_leaks=0', '-len_control=%d' % (0 if i % 3 == 0 else 50), '-artifact_prefix=%s/' % d, '-print_final_stats=1', d + '/c'] + ([corp] if os.path.isdir(corp) else [])
            lf = open(d + '/log', 'wb')
            procs.append((subprocess.Popen(cmd, stdout=lf, stderr=lf, env=env, cwd=d, start_new_session=True), d))
        crash = None
        end = time.time() + seconds + 60
        while time.time() < end:
            alive = False
            for p, d in procs:
                rc = p.poll()
                if rc is None: alive = True
                elif rc != 0 and crash is None: crash = d
            if crash or not alive: break
            time.sleep(0.2)
        for p, d in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
        execs = 0; cov = 0
        for p, d in procs:
            log = open(d + '/log', errors='replace').read()
            n = re.findall(r'^#(\d+)', log, re.M)
            m = re.findall(r'stat::number_of_executed_units: (\d+)', log)
            execs += int(m[-1]) if m else (int(n[-1]) if n else 0)
            c = re.findall(r'cov: (\d+)', log)
            if c: cov = max(cov, int(c[-1]))
        r = dict(status='clean', execs=execs, cov=cov, wall=time.time() - t0, output='')
        if crash:
            log = open(crash + '/log', errors='replace').read()
            arts = [f for f in glob.glob(crash + '/*') if os.path.basename(f).split('-')[0] in ('crash', 'timeout', 'oom', 'leak')]
            if arts and not os.path.basename(arts[0]).startswith('oom'):
                data = open(arts[0], 'rb').read()
                # confirm on a fresh process
                rr = subprocess.run([binp, arts[0]], capture_output=True, timeout=120, env=env, cwd=crash)
                if rr.returncode != 0:
                    r.update(status='crash', input=data, output=tail(log), kind=os.path.basename(arts[0]).split('-')[0])
                else: r.update(status='clean', output='unconfirmed artifact: ' + tail(log))
            elif 'PROPERTY-FAIL' in log or 'ERROR: AddressSanitizer: ' in log and 'ABRT' not in log:      # the artifact could not be written
                import base64
                m = re.findall(r'^Base64: (\S+)', log, re.M); r.update(status='crash', input=base64.b64decode(m[-1]) if m else b'', output=tail(log), kind='crash')
            elif 'ERROR: libFuzzer: out-of-memory' in log: r.update(status='clean', output='memory limit reached')
            else: r.update(status='error', output=tail(log))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tail(log):
    m = re.search(r'(PROPERTY-FAIL|ERROR: |runtime error:|==\d+==ERROR)', log)
    i = max(0, m.start() - 300) if m else max(0, len(log) - 4000)
    return log[i:i + 6000]


def replay(prop, path):
    work = tempfile.mkdtemp(prefix='vf_fz_')
    try:
        binp, err = build(prop, work)
        if binp is None: print(err); return 2
        return subprocess.run([binp, path]).returncode
    finally: shutil.rmtree(work, ignore_errors=True)
