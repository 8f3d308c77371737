# Shared helpers: locations, assembling a copy of /repo's crate, building and running the bounded driver.
import os, sys, subprocess, shutil, time, fcntl, json, re, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ND_VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def env(cpu='x86-64'):
    e = dict(os.environ)
    e['HOME'] = e.get('HOME', '/root')
    if '/root/.cargo/bin' not in e.get('PATH', ''):
        e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUSTC_WRAPPER'] = ''
    e['CARGO_INCREMENTAL'] = '1'
    e['CARGO_PROFILE_DEV_DEBUG'] = 'line-tables-only'
    for k in ('CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    e['RUSTFLAGS'] = '-C target-cpu=%s -A warnings' % cpu
    e['RUST_BACKTRACE'] = '0'
    return e


def have_avx2():
    try:
        f = open('/proc/cpuinfo').read()
    except OSError:
        return False
    return all(re.search(r'\b%s\b' % x, f) for x in ('avx2', 'bmi2', 'fma'))


def sync_file(src, dst):
    """copy when different, so that cargo's fingerprints stay valid"""
    b = open(src, 'rb').read()
    if os.path.exists(dst) and open(dst, 'rb').read() == b:
        return
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'wb') as f:
        f.write(b)


def write_if_changed(dst, text):
    if os.path.exists(dst) and open(dst).read() == text:
        return
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'w') as f:
        f.write(text)


def assemble(name, extra_mods=()):
    """Copy /repo's crate (src, Cargo.toml, Cargo.lock) to build/<name>; append `#[cfg(..)] mod m;` lines to main.rs
    extra_mods: list of (module name, source path, cfg, extra attributes)"""
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    keep = set()
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        for f in files:
            s = os.path.join(root, f)
            rel = os.path.relpath(s, REPO)
            if rel == 'src/main.rs':
                keep.add(rel)
                continue
            sync_file(s, os.path.join(d, rel))
            keep.add(rel)
    for f in ('Cargo.toml', 'Cargo.lock', 'README.md', 'build.rs'):
        if os.path.exists(os.path.join(REPO, f)):
            sync_file(os.path.join(REPO, f), os.path.join(d, f))
    # an own workspace, so that nothing above the build directory is picked up
    toml = open(os.path.join(REPO, 'Cargo.toml')).read()
    if '[workspace]' not in toml:
        toml += '\n[workspace]\n'
    write_if_changed(os.path.join(d, 'Cargo.toml'), toml)
    main = open(os.path.join(REPO, 'src/main.rs')).read()
    for (m, path, cfg) in extra_mods:
        sync_file(path, os.path.join(d, 'src', m + '.rs'))
        keep.add('src/%s.rs' % m)
        main += '\n#[cfg(%s)]\nmod %s;\n' % (cfg, m)
    write_if_changed(os.path.join(d, 'src/main.rs'), main)
    for root, dirs, files in os.walk(os.path.join(d, 'src')):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, d) not in keep:
                os.unlink(p)
    return d


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, '.lock-' + name)

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo(d, args, cpu='x86-64', timeout=600, cfgs=()):
    e = env(cpu)
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target-' + cpu)
    for c in cfgs:
        e['RUSTFLAGS'] += ' --cfg ' + c
    try:
        p = subprocess.run(['cargo'] + args, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, 'timeout: ' + str(x)
    except OSError as x:
        return 127, str(x)


def build_driver(cpu='x86-64'):
    """test binary of the crate with the bounded driver in it; None (with the log) when it can not be built"""
    with Lock('asm'):
        out = ''
        for cfgs in ((), ('nd_verif_no_mapper',)):
            d = assemble('asm', [('verif_driver', os.path.join(VERIF, 'driver/verif_driver.rs'), 'test')])
            rc, out = cargo(d, ['test', '--offline', '--no-run'], cpu, cfgs=cfgs)
            if rc == 0:
                m = re.findall(r'Executable .*\(([^)]+)\)', out)
                if m:
                    b = m[-1] if os.path.isabs(m[-1]) else os.path.join(d, m[-1])
                    dst = os.path.join(BUILD, 'driver-%s-%d' % (cpu, os.getpid()))
                    shutil.copy2(b, dst)
                    return dst, ''
        return None, out[-3000:]


def build_bin(cpu='x86-64'):
    """the ordinary binary (2 MiB blocks)"""
    with Lock('asm'):
        d = assemble('asm', [('verif_driver', os.path.join(VERIF, 'driver/verif_driver.rs'), 'test')])
        rc, out = cargo(d, ['build', '--offline'], cpu)
        if rc:
            return None, out[-3000:]
        dst = os.path.join(BUILD, 'nd-%s-%d' % (cpu, os.getpid()))
        shutil.copy2(os.path.join(BUILD, 'target-' + cpu, 'debug', 'nd'), dst)
        return dst, ''


def parse_driver(out):
    """-> (list of reports, stats) ; a report is dict(kind, msg, case text, detail lines)"""
    reps, cur, stats = [], None, None
    for l in out.splitlines():
        i = l.find('@@')
        if i < 0:
            continue
        k, _, v = l[i + 2:].partition(' ')
        if k in ('fail', 'hang', 'pass'):
            cur = dict(kind=k, msg=v, case='', detail=[])
            reps.append(cur)
        elif k == 'stats':
            stats = dict(re.findall(r'(\w+)=([\d.]+)', v))
        elif k == 'sample':
            reps.append(dict(kind='sample', msg=v, case='', detail=[]))
        elif cur is not None:
            if k == 'case':
                cur['case'] += v + '\n'
            elif k == 'end':
                cur = None
            else:
                cur['detail'].append(k + ' ' + v)
    return reps, stats


def decode_case(text):
    o = []
    for l in text.splitlines():
        k, _, v = l.partition(' ')
        if k in ('arg', 'input', 'patch', 'guide', 'pre'):
            try:
                b = bytes.fromhex(v)
                v = repr(b)[1:] if len(b) < 2000 else repr(b[:2000])[1:] + '...(%d bytes)' % len(b)
            except ValueError:
                pass
        o.append('%s %s' % (k, v))
    return o


def decode_detail(lines):
    o = []
    for l in lines:
        k, _, v = l.partition(' ')
        if k in ('expected', 'got'):
            try:
                v = repr(bytes.fromhex(v))[1:2000]
            except ValueError:
                pass
        o.append('%s %s' % (k, v))
    return o


def driver_env(scr, **kw):
    e = dict(os.environ)
    e['RUST_BACKTRACE'] = '0'
    e['ND_VERIF_SCRATCH'] = scr
    e['TMPDIR'] = scr
    for k, v in kw.items():
        e['ND_VERIF_' + k] = str(v)
    return e


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    os.setsid()


CMD = ['--exact', 'verif_driver::verif_main', '--nocapture']


def replay_case(binary, case, tag='r'):
    scr = os.path.join(BUILD, 'scratch', '%d-%s' % (os.getpid(), tag))
    shutil.rmtree(scr, ignore_errors=True)
    os.makedirs(scr)
    cf = os.path.join(scr, 'case')
    open(cf, 'w').write(case)
    try:
        p = subprocess.run([binary] + CMD, env=driver_env(scr, CMD='replay', CASE=cf, CASE_SECS=60), cwd=scr, preexec_fn=limits,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=120)
        out, rc = p.stdout.decode('latin1'), p.returncode
    except subprocess.TimeoutExpired:
        out, rc = '@@hang replay timed out\n@@end\n', 124
    reps, _ = parse_driver(out)
    shutil.rmtree(scr, ignore_errors=True)
    for r in reps:
        if r['kind'] in ('fail', 'hang'):
            return r
        if r['kind'] == 'pass':
            return None
    return dict(kind='fail', msg='the process died (status %d)' % rc, case=case, detail=[])


def explore(binary, groups, secs, nproc=8, cases=10**9, seed=None, tag='e'):
    """run the driver in parallel; returns (stats, confirmed failure or None, notes)"""
    seed = SEED if seed is None else seed
    procs = []
    for i in range(nproc):
        scr = os.path.join(BUILD, 'scratch', '%d-%s%d' % (os.getpid(), tag, i))
        shutil.rmtree(scr, ignore_errors=True)
        os.makedirs(scr)
        of = open(os.path.join(scr, 'stdout'), 'wb')
        p = subprocess.Popen([binary] + CMD, cwd=scr, preexec_fn=limits, stdin=subprocess.DEVNULL,
                             env=driver_env(scr, CMD='explore', PROP=groups, SEED=seed * 1009 + i, CASES=cases, SECS=secs,
                                            MAXFAIL=1, CASE_SECS=30),
                             stdout=of, stderr=subprocess.DEVNULL)
        procs.append((p, scr, of))
    deadline = time.time() + secs + 75
    tot = dict(done=0, skipped=0, errors_expected=0, distinct=0)
    cands, notes, samples = [], [], []
    found = False
    pending = list(procs)
    while pending:
        for t in list(pending):
            p, scr, of = t
            rc = p.poll()
            if rc is None:
                if time.time() > deadline:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    rc = 124
                else:
                    continue
            pending.remove(t)
            of.close()
            out = open(os.path.join(scr, 'stdout'), 'rb').read().decode('latin1')
            reps, st = parse_driver(out)
            if st:
                for k in tot:
                    tot[k] += int(float(st.get(k, 0)))
            bad = [r for r in reps if r['kind'] in ('fail', 'hang')]
            if not bad and rc != 0:
                cur = os.path.join(scr, 'current')
                if os.path.exists(cur):
                    bad = [dict(kind='fail', msg='the process died (status %s)' % rc, case=open(cur).read(), detail=[])]
                else:
                    notes.append('driver process ended with status %s without a case' % rc)
            cands += bad
            try:
                samples.append(open(os.path.join(scr, 'current')).read())
            except OSError:
                pass
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        time.sleep(0.1)
    for _, scr, _ in procs:
        shutil.rmtree(scr, ignore_errors=True)
    tot['samples'] = samples[:2]
    cands.sort(key=lambda r: len(r['case']))
    for r in cands:
        c = replay_case(binary, r['case'])
        if c is not None:
            c2 = replay_case(binary, r['case'])
            if c2 is not None:
                return tot, c, notes
        notes.append('not reproduced: ' + r['msg'][:200])
    return tot, None, notes
