# Bounded harness for --inplace: random sets of files and pipelines, some of which fail part way. The expected content of
# a file is what the same binary prints for that file alone; a file whose pipeline fails must be intact, and so must the
# files that are not named.
import os, random, shutil, subprocess, time, json
from concurrent.futures import ThreadPoolExecutor
from common import *

NAMES = ['a', 'b', 'c', 'a.tmp', 'b.tmp', 'a.tmp1', 'd e', 'A', 'a.tmp.tmp']


def content(r, big):
    if big:
        n = r.choice([2097151, 2097152, 2097153, 3000000, 4200000])
        return bytes(r.getrandbits(3) for _ in range(1000)) * (n // 1000) + b'x' * (n % 1000)
    n = r.choice([0, 0, 1, 2, 3, 10, 100, 300])
    return bytes(r.choice(b'\x01\x02\x03abc\n |0') for _ in range(n))


def gen(r):
    big = r.random() < 0.03
    files = {}
    for n in r.sample(NAMES, 1 + r.randrange(5)):
        files[n] = content(r, big and r.random() < 0.5)
    patch = None
    k = r.randrange(13)
    args = [
        ['-f', 'b'], ['-f', 'b', '-a', '2,3'], ['-f', 'x', '-w', '16'], ['-f', 'b', '-n', '1..5'], ['-f', 'x', '-k', 'b[0]'], ['-f', 'b', '-k', 'b[0]-2'], ['-F', 'x', '-f', 'b'],
        ['-f', 'b', '-p', '{P}'], ['-f', 'b', '-p', '{P}'], ['-f', 'b', '-l', '0..7'], ['-f', 'b', '-P', 'cat'], ['-f', 'b', '-d', '61'], ['-r', 's..e', '-f', 'b'],
    ][k]
    if '{P}' in args:
        patch = r.choice([b'0 1 | 41 42\n', b'1 1 | 58\nzz 1 | 00\n', b'0 0 | 43\n1 1 | 44\n', b'0 1 | 0g\n', b'2 4 | 00\n3 1 | 01\n'])
    named = r.sample(sorted(files), 1 + r.randrange(len(files)))
    if r.random() < 0.4:
        named += [r.choice(named)]
    r.shuffle(named)
    if r.random() < 0.1:
        named.insert(r.randrange(len(named) + 1), 'missing')
    return dict(files=files, args=args, named=named, patch=patch)


def run_case(binary, c, scr):
    shutil.rmtree(scr, ignore_errors=True)
    os.makedirs(scr + '/w')
    args = [x.replace('{P}', scr + '/patch') for x in c['args']]
    if c['patch'] is not None:
        open(scr + '/patch', 'wb').write(c['patch'])
    exp = dict(c['files'])

    def nd(a):
        e = dict(os.environ, RUST_BACKTRACE='0')
        e.pop('PAGER', None)
        return subprocess.run([binary] + a, cwd=scr + '/w', env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, preexec_fn=limits)
    for n, b in c['files'].items():
        open('%s/w/%s' % (scr, n), 'wb').write(b)
    fails = False
    names = sorted(set(c['named']))
    outs = {}
    for n in names:
        if n not in c['files']:
            outs[n] = None
            continue
        p = nd(args + ['--', n])
        outs[n] = p.stdout if p.returncode == 0 else None
    p = nd(args + ['-i', '--'] + c['named'])
    failed = [n for n in names if outs[n] is None]
    if failed and p.returncode == 0:
        return 'the pipeline fails on %r but --inplace ends with status 0' % failed
    if not failed and p.returncode != 0:
        return '--inplace fails (%d, %r) where the pipeline does not' % (p.returncode, p.stderr[:200])
    for n in c['files']:
        try:
            got = open('%s/w/%s' % (scr, n), 'rb').read()
        except OSError:
            return '%r is gone' % n
        ok = [c['files'][n]] if n not in names or outs[n] is None else [outs[n]]
        if failed and n in names and outs[n] is not None:
            ok = [c['files'][n], outs[n]]     # before or after the failure
        if got not in ok:
            return '%r holds %r (%d bytes), expected %r (%d bytes)' % (n, got[:60], len(got), ok[0][:60], len(ok[0]))
    return None


def enc(c):
    o = ''
    for n, b in c['files'].items():
        if len(b) > 10000:
            o += 'file %s rep %s %d %s\n' % (n.encode().hex(), b[:1000].hex(), len(b) // 1000, b[len(b) // 1000 * 1000:].hex())
        else:
            o += 'file %s %s\n' % (n.encode().hex(), b.hex())
    for a in c['args']:
        o += 'arg ' + a.encode().hex() + '\n'
    for a in c['named']:
        o += 'named ' + a.encode().hex() + '\n'
    if c['patch'] is not None:
        o += 'patch ' + c['patch'].hex() + '\n'
    return o


def dec(s):
    c = dict(files={}, args=[], named=[], patch=None)
    for l in s.splitlines():
        f = l.split(' ')
        if f[0] == 'file':
            n = bytes.fromhex(f[1]).decode()
            c['files'][n] = bytes.fromhex(f[3]) * int(f[4]) + bytes.fromhex(f[5]) if f[2] == 'rep' else bytes.fromhex(f[2])
        elif f[0] in ('arg', 'named'):
            c[f[0] + ('s' if f[0] == 'arg' else '')].append(bytes.fromhex(f[1]).decode())
        elif f[0] == 'patch':
            c['patch'] = bytes.fromhex(f[1])
    return c


def replay(text):
    b, out = build_bin()
    if not b:
        return None
    m = run_case(b, dec(text), os.path.join(BUILD, 'scratch', 'ip-%d' % os.getpid()))
    os.unlink(b)
    return dict(msg=m, detail=[]) if m else None


def run(thorough):
    b, out = build_bin()
    if not b:
        return dict(harness='inplace', evaluations=0, note='the binary could not be built')
    secs = 160 if thorough else 20
    end = time.time() + secs
    res = dict(n=0, distinct=set(), bad=None)

    def worker(i):
        r = random.Random(SEED * 1000 + i)
        scr = os.path.join(BUILD, 'scratch', 'ip-%d-%d' % (os.getpid(), i))
        while time.time() < end and not res['bad']:
            c = gen(r)
            m = run_case(b, c, scr)
            res['n'] += 1
            res['distinct'].add(hash(enc(c)))
            if m and run_case(b, c, scr) and run_case(b, c, scr):
                best = c
                for n in list(c['files']):
                    d = dict(best, files={k: v for k, v in best['files'].items() if k != n}, named=[x for x in best['named'] if x != n])
                    if d['named'] and run_case(b, d, scr):
                        best = d
                res['bad'] = (best, run_case(b, best, scr) or m)
        shutil.rmtree(scr, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(worker, range(8)))
    os.unlink(b)
    out = dict(harness='inplace', evaluations=res['n'], distinct=len(res['distinct']), failure=None)
    if res['bad']:
        c, m = res['bad']
        out['failure'] = dict(msg=m, case=enc(c), detail=['files %r' % {k: v[:80] for k, v in c['files'].items()}, 'args %r' % c['args'], 'named %r' % c['named'], 'patch %r' % c['patch']])
    return out
