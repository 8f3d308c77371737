# Bounded harness for --patch-back with the release block size: streams of several blocks through the real binary. The command must
# receive the text that the same pipeline prints without it, and the output is the stream with the returned records applied.
import os, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from common import *

SLICERS = [[], ['-w', '16'], ['-w', '4096'], ['-w', '100'], ['-r', '5..e-7'], ['-r', '1048576..2097200,9..e-3000000'], ['-w', '64', '-l', '100..e-3'],
           ['-w', '4096', '-x', 's-9..s+3'], ['-d', '41 41'], ['-w', '50', '-l', '3..5'], ['-r', '0..10']]
COMMANDS = ['cat', 'cat', "sed -u 's/| 41/| 42/'", "sed 's/| 4[0-9]/| 7e/'", 'sleep 0.1; cat', ': ; cat >/dev/null']
BLOCK = 2 * 1024 * 1024


def content(c):
    r = random.Random(c['seed'])
    p = bytes(r.choice(b'A@abcB\n\0') for _ in range(997))
    return (p * (c['size'] // 997 + 1))[:c['size']]


def gen(r):
    n = r.choice([1, 1, 2, 3, 4, 6]) * BLOCK + r.choice([-1, 0, 1, 5, 100, 77777, -400000])
    return dict(size=n, seed=r.randrange(1000), args=r.choice(SLICERS), cmd=r.choice(COMMANDS))


def run_case(binary, c, scr):
    shutil.rmtree(scr, ignore_errors=True)
    os.makedirs(scr)
    d = content(c)
    open(scr + '/in', 'wb').write(d)

    def nd(a):
        e = dict(os.environ, RUST_BACKTRACE='0')
        e.pop('PAGER', None)
        return subprocess.run([binary] + a, cwd=scr, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, preexec_fn=limits)
    text = nd(c['args'] + ['in'])
    if text.returncode != 0:
        return 'the pipeline fails without --patch-back: %r' % text.stderr[:200]
    p = nd(c['args'] + ['-P', 'tee rec | (' + c['cmd'] + ') | tee ret', '-f', 'b', 'in'])
    if p.returncode != 0:
        return '--patch-back fails (%d, %r)' % (p.returncode, p.stderr[:200])
    rec = open(scr + '/rec', 'rb').read()
    if rec != text.stdout:
        i = next((i for i, (a, b) in enumerate(zip(rec, text.stdout)) if a != b), min(len(rec), len(text.stdout)))
        return 'the command received %d bytes, expected %d; they differ at %d: %r, expected %r' % (len(rec), len(text.stdout), i, rec[i:i + 60], text.stdout[i:i + 60])
    out, at = [], 0
    for l in open(scr + '/ret', 'rb'):
        h, body = l.split(b'|', 2)[:2]
        pos, n = [int(x, 16) for x in h.split()]
        if pos < at:
            return None     # records that overlap: not judged
        out += [d[at:pos], bytes.fromhex(body.decode())]
        at = pos + n
    exp = b''.join(out + [d[at:]])
    if p.stdout != exp:
        i = next((i for i, (a, b) in enumerate(zip(p.stdout, exp)) if a != b), min(len(p.stdout), len(exp)))
        return 'the output has %d bytes, expected %d; they differ at %d: %r, expected %r' % (len(p.stdout), len(exp), i, p.stdout[i:i + 40], exp[i:i + 40])
    return None


def enc(c):
    return 'size %d\nseed %d\ncmd %s\n' % (c['size'], c['seed'], c['cmd'].encode().hex()) + ''.join('arg %s\n' % a.encode().hex() for a in c['args'])


def dec(s):
    c = dict(args=[])
    for l in s.splitlines():
        k, _, v = l.partition(' ')
        if k in ('size', 'seed'):
            c[k] = int(v)
        elif k == 'cmd':
            c['cmd'] = bytes.fromhex(v).decode()
        elif k == 'arg':
            c['args'].append(bytes.fromhex(v).decode())
    return c


def replay(text):
    b, out = build_bin()
    if not b:
        return None
    scr = os.path.join(BUILD, 'scratch', 'bp-%d' % os.getpid())
    m = run_case(b, dec(text), scr)
    shutil.rmtree(scr, ignore_errors=True)
    os.unlink(b)
    return dict(msg=m, detail=[]) if m else None


def run(thorough):
    b, out = build_bin()
    if not b:
        return dict(harness='bigpipe', evaluations=0, note='the binary could not be built')
    end = time.time() + (200 if thorough else 30)
    res = dict(n=0, distinct=set(), bad=None)

    def worker(i):
        r = random.Random(SEED * 1000 + i)
        scr = os.path.join(BUILD, 'scratch', 'bp-%d-%d' % (os.getpid(), i))
        while time.time() < end and not res['bad']:
            c = gen(r)
            try:
                m = run_case(b, c, scr)
                if m and run_case(b, c, scr) and run_case(b, c, scr):
                    res['bad'] = (c, m)
            except subprocess.TimeoutExpired:
                pass                        # a slow machine is not a violation
            res['n'] += 1
            res['distinct'].add(enc(c))
        shutil.rmtree(scr, ignore_errors=True)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(worker, range(4)))
    os.unlink(b)
    out = dict(harness='bigpipe', evaluations=res['n'], distinct=len(res['distinct']), failure=None)
    if res['bad']:
        c, m = res['bad']
        out['failure'] = dict(msg=m, case=enc(c), detail=['args %r' % c['args'], 'command %r' % c['cmd'], 'input: %d bytes, seed %d' % (c['size'], c['seed'])])
    return out
