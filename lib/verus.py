# Runs Verus on the units of /verif/proofs, extracted from /repo's current source.
import os, re, json, subprocess, time, hashlib, concurrent.futures
from common import *
import extract

PROOFS = os.path.join(VERIF, 'proofs')
TRUST = re.compile(r'(assume_specification\b[^\n]*|external_body\b|external_fn_specification|\badmit\(\)|\bassume\()')


def verus_bin():
    for p in ('verus', '/opt/veriftools/verus/verus', '/usr/local/bin/verus'):
        import shutil
        q = shutil.which(p)
        if q:
            return q
    return None


def run_file(path, args=(), timeout=600):
    b = verus_bin()
    t = time.time()
    try:
        p = subprocess.run([b, '--crate-type=lib', path, '--output-json', '--error-format=json', '--num-threads', '4',
                            '--multiple-errors', '20'] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout, cwd=os.path.dirname(path), env=env())
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t, 'timeout after %d s' % timeout
    try:
        js = json.loads(p.stdout)
    except ValueError:
        js = None
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return js, diags, time.time() - t, p.stderr if js is None else ''


def trusted_in(text):
    out = []
    lines = text.split('\n')
    for i, l in enumerate(lines):
        if l.strip().startswith('//') or '// verified in ' in l:
            continue
        m = TRUST.search(l)
        if m:
            if 'external_body' in l or 'external_fn' in l:
                for k in range(i, min(i + 4, len(lines))):
                    f = re.search(r'(fn|struct)\s+(\w+)', lines[k])
                    if f:
                        out.append('Verus: %s %s is trusted (external_body)' % (f.group(1), f.group(2)))
                        break
            else:
                out.append('Verus: ' + l.strip()[:160])
    return out


DEFINITE = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
            'possible arithmetic underflow/overflow', 'possible division by zero', 'decreases not satisfied', 'loop invariant',
            'unable to prove', 'possible', 'cannot prove', 'recommendation not met', 'could not prove', 'might', 'not satisfied')
SOFT = ('rlimit', 'Resource limit', 'resource limit', 'timed out', 'timeout')


def run_unit(name, thorough=False):
    t0 = time.time()
    r = dict(tool='verus', name=name, obligations=0, discharged=0, secs=0.0, undecided='', functions=[], backend='Verus (Z3)',
             trusted=[], failed=[], bounded=None, rewrites=[], dropped=[])
    path = os.path.join(PROOFS, name + '.rs')
    gd = os.path.join(BUILD, 'verus', '%d' % os.getpid())
    os.makedirs(gd, exist_ok=True)
    u = extract.Unit(path, REPO)
    try:
        text = u.build()
    except extract.Lost as x:
        r['undecided'] = 'the annotations no longer fit the source: %s' % x
        return r
    except (IndexError, RecursionError) as x:
        r['undecided'] = 'the source could not be extracted: %r' % x
        return r
    out = os.path.join(gd, name + '.rs')
    open(out, 'w').write(text)
    r['functions'] = u.functions
    r['rewrites'] = u.rewrites
    r['dropped'] = sorted(u.dropped)
    r['trusted'] = trusted_in(text)
    r['elsewhere'] = ['%s (unit %s)' % x for x in u.contracts]
    if verus_bin() is None:
        r['undecided'] = 'verus is not installed'
        return r
    args = ['--rlimit', '60' if not thorough else '200']
    js, diags, secs, err = run_file(out, args)
    r['secs'] = secs
    if js is None:
        r['undecided'] = 'verus gave no answer: ' + err[-600:]
        return r
    vr = js.get('verification-results', {})
    ok, bad = int(vr.get('verified', 0) or 0), int(vr.get('errors', 0) or 0)
    errs = [d for d in diags if d.get('level') == 'error' and not d.get('message', '').startswith('aborting')]
    if vr.get('encountered-vir-error') or (not vr.get('success') and bad == 0):
        r['undecided'] = 'the extracted text is not accepted: ' + '; '.join(e.get('rendered') or e['message'] for e in errs)[:1500]
        r['obligations'] = r['discharged'] = 0
        return r
    r['obligations'], r['discharged'] = ok + bad, ok
    soft = []
    for e in errs:
        msg = e['message']
        line = 0
        labels = []
        for s in e.get('spans', []):
            if s.get('is_primary') or not line:
                line = s['line_start']
            if s.get('label'):
                labels.append('%d: %s' % (s['line_start'], s['label']))
        fn = None
        for s in e.get('spans', []):
            fn = fn or u.where(s['line_start'])
        src = text.split('\n')[line - 1].strip() if 0 < line <= text.count('\n') + 1 else ''
        if any(x in msg for x in SOFT):
            soft.append('%s: %s' % (fn, msg))
            continue
        r['failed'].append(dict(name='%s / %s: %s [%s]' % (name, fn or 'lemma', msg, src[:140]), output=e.get('rendered') or msg, fn=fn))
    if soft and not r['failed']:
        r['undecided'] = 'solver gave up: ' + '; '.join(soft)
    if thorough and not r['failed'] and not r['undecided']:
        v = vacuity(name, path)
        if v:
            r['undecided'] = v
    r['secs'] = time.time() - t0
    return r


def vacuity(name, path):
    """assert(false) at the entry of every extracted function must be rejected in every one of them"""
    u = extract.Unit(path, REPO)
    u.vacuous = True
    text = u.build()
    out = os.path.join(BUILD, 'verus', '%d' % os.getpid(), name + '_vac.rs')
    open(out, 'w').write(text)
    js, diags, secs, err = run_file(out, ['--rlimit', '60'])
    hit = set()
    for e in diags:
        if e.get('level') != 'error':
            continue
        for s in e.get('spans', []):
            ln = text.split('\n')[s['line_start'] - 1]
            if 'assert(false)' in ln:
                hit.add(u.where(s['line_start']))
    miss = [f for f in u.functions if f not in hit]
    return 'vacuous precondition in ' + ', '.join(miss) if miss else ''


def run_units(units, thorough=False):
    import shutil
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda n: run_unit(n, thorough), units))
    shutil.rmtree(os.path.join(BUILD, 'verus', '%d' % os.getpid()), ignore_errors=True)
    return res


if __name__ == '__main__':
    import sys
    th = '--vac' in sys.argv
    for n in [a for a in sys.argv[1:] if not a.startswith('-')]:
        r = run_unit(n, th)
        print(n, '%d/%d' % (r['discharged'], r['obligations']), '%.1fs' % r['secs'], r['undecided'][:3000])
        for f in r['failed']:
            print('  FAILED', f['name'])
            if '-v' in sys.argv:
                print(f['output'][:3000])
        print('  functions', len(r['functions']), 'trusted', r['trusted'])
