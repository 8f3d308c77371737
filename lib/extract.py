# Mechanical extraction of functions and type definitions from /repo's current source into a Verus file.
#
# A template (proofs/<unit>.rs) is Verus text with directives; every executable token of an extracted function comes from /repo,
# except for the rewrites the template names (//@subst), which are recorded and reported in the evidence.
#
#   //@include NAME                      proofs/NAME
#   //@assume NAME UNIT                  proofs/NAME with the contracts of its functions and lemmas only: the bodies are verified in UNIT
#   //@const FILE NAME [`a` => `b`]..    constant item (a rewrite of what is not there is left out)
#   //@struct FILE NAME [`a` => `b`]..   struct or enum definition
#   //@foreach x = a b .. //@endforeach    the lines in between once per value, $x replaced
#   //@fn FILE PATH                      PATH: name | Type::name | Trait for Type::name
#   //@closure FILE PATH K               body of the K-th closure (from 1) of a function, as a function body
#      //@sig fn ...                     replaces the signature (the body stays)
#      //@spec                           requires / ensures, as raw lines up to the next directive
#      //@entry  //@exit                 proof lines at the start / before the closing brace of the body
#      //@loop N                         invariants of the N-th loop (from 1, in source order; 0 loops is checked too)
#      //@loopstart N //@loopend N       proof lines at the start / end of the loop's body
#      //@beforeloop N //@afterloop N
#      //@before `t` [K] //@after `t` [K]  proof lines around the K-th occurrence of a token sequence
#      //@tail `t`                       `t ... }` becomes `let ret = t ...; <proof lines> ret }`
#      //@subst `a` => `b` [K|*]         token rewrite
#      //@closurearg K => `t`            replaces the K-th closure of the body by tokens
#      //@optctx                        .context(..), .with_context(..) of options become .ok_or(any_error())
#      //@dropstmt `t` [K]               drops the statement that starts with the token sequence
#      //@loops N                        number of loops the body must have (otherwise: undecided)
#   //@end
import re, os


class Lost(Exception):
    """the source no longer has the shape the annotations were written for"""


TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\d_]*(?:\.\d[\d_]*(?:[eE][+-]?\d+)?)?[A-Za-z_]\w*|0[xbo][\da-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|\d[\d_]*\.\d[\d_]*|\d[\d_]*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|.)
''', re.X | re.S)


def strip_block_comments(s):
    # nested block comments, outside strings; replaced by spaces
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            out.append(s[i:j])
            i = j
        elif s.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith('/*', j):
                    d += 1
                    j += 2
                elif s.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            out.append(' ')
            i = j
        else:
            m = TOK.match(s, i)
            out.append(m.group(0))
            i = m.end()
    return ''.join(out)


def tokenize(s):
    s = strip_block_comments(s)
    toks, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Lost('tokenizer')
        if m.lastgroup not in ('ws', 'lc') and not (m.group('ws') or m.group('lc')):
            t = m.group(0)
            # `0..n`: the number must not swallow the dots
            toks.append(t)
        i = m.end()
    return toks


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}


def match_close(t, i):
    """index of the bracket that closes t[i]"""
    d = 0
    for j in range(i, len(t)):
        if t[j] in OPEN:
            d += 1
        elif t[j] in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise Lost('unbalanced brackets')


def strip_attrs(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == '#' and i + 1 < len(t) and (t[i + 1] == '[' or (t[i + 1] == '!' and t[i + 2] == '[')):
            j = i + 1 if t[i + 1] == '[' else i + 2
            i = match_close(t, j) + 1
            continue
        out.append(t[i])
        i += 1
    return out


def expand_macros(t):
    """invocations of the file's own macros of one arm, with plain `$x: kind` arguments, whose bodies define functions"""
    out, i, macs = [], 0, {}
    while i < len(t):
        if t[i:i + 2] == ['macro_rules', '!'] and t[i + 3] == '{':
            e = match_close(t, i + 3)
            arm = t[i + 4:e]
            if arm and arm[-1] == ';':
                arm = arm[:-1]
            if arm and arm[0] == '(':
                p = match_close(arm, 0)
                args, k, ok = [], 1, True
                while k < p:
                    if arm[k] == '$' and arm[k + 2] == ':' and arm[k + 4] in (',', ')'):
                        args.append(arm[k + 1])
                        k += 5
                    else:
                        ok = False
                        break
                if ok and arm[p + 1:p + 3] == ['=>', '{'] and match_close(arm, p + 2) == len(arm) - 1 and 'fn' in arm[p + 3:]:
                    macs[t[i + 2]] = (args, arm[p + 3:-1])
                    i = e + 1
                    continue
            out += t[i:e + 1]
            i = e + 1
            continue
        if t[i] in macs and t[i + 1:i + 2] == ['!'] and t[i + 2] in OPEN:
            e = match_close(t, i + 2)
            vals, cur, d = [], [], 0
            for x in t[i + 3:e]:
                if x == ',' and d == 0:
                    vals.append(cur)
                    cur = []
                    continue
                d += x in OPEN
                d -= x in CLOSE
                cur.append(x)
            vals.append(cur)
            args, body = macs[t[i]]
            if len(vals) != len(args):
                raise Lost('macro %s' % t[i])
            k = 0
            while k < len(body):
                if body[k] == '$' and body[k + 1] in args:
                    out += vals[args.index(body[k + 1])]
                    k += 2
                else:
                    out.append(body[k])
                    k += 1
            i = e + 1
            if t[i:i + 1] == [';']:
                i += 1
            continue
        out.append(t[i])
        i += 1
    return out


class Source:
    def __init__(self, repo):
        self.repo = repo
        self.cache = {}
        self.simd = set()

    def toks(self, f):
        if f not in self.cache:
            p = os.path.join(self.repo, f)
            if not os.path.exists(p):
                raise Lost('%s is gone' % f)
            t = tokenize(open(p).read())
            # items under #[cfg(test)] or #[test] are dropped
            out, i = [], 0
            while i < len(t):
                if t[i] == '#' and t[i + 1:i + 2] == ['[']:
                    j = match_close(t, i + 1)
                    a = t[i + 2:j]
                    simd = a[:3] == ['cfg', '(', 'all'] and 'target_arch' in a
                    if a[:1] == ['test'] or a[:4] == ['cfg', '(', 'test', ')'] or simd:
                        k = j + 1
                        while t[k] == '#':
                            k = match_close(t, k + 1) + 1
                        while t[k] not in (';', '{'):
                            if t[k] in ('(', '['):
                                k = match_close(t, k)
                            k += 1
                        if t[k] == '{':
                            k = match_close(t, k)
                        i = k + 1
                        if simd:
                            self.simd.add(f)
                            if t[i:i + 1] == [';']:
                                i += 1
                        continue
                    i = j + 1
                    continue
                out.append(t[i])
                i += 1
            self.cache[f] = expand_macros(out)
        return self.cache[f]

    def item(self, f, kind, name):
        t = self.toks(f)
        i, hits = 0, []
        while i < len(t) - 1:
            if t[i] in kind and t[i + 1] == name:
                j = i
                while t[j] not in (';', '{'):
                    j = match_close(t, j) + 1 if t[j] in ('(', '[') else j + 1
                if t[j] == '{':
                    j = match_close(t, j)
                hits.append(t[i:j + 1])
                i = j
            elif t[i] == '{' and kind != ('fn',):
                pass
            i += 1
        if len(hits) != 1:
            raise Lost('%s: %d items named %s' % (f, len(hits), name))
        return hits[0]

    def impls(self, f):
        """(trait tokens or None, type name, generics, body tokens)"""
        t = self.toks(f)
        i, d, out = 0, 0, []
        while i < len(t):
            if t[i] == 'impl' and d == 0:
                j = i + 1
                if t[j] == '<':
                    j = skip_angle(t, j)
                k = j
                while t[k] != '{':
                    k += 1
                head = t[j:k]
                if 'where' in head:
                    head = head[:head.index('where')]
                tr = None
                if 'for' in head:
                    p = head.index('for')
                    tr, head = head[:p], head[p + 1:]
                e = match_close(t, k)
                out.append((tr, head, t[i:k], t[k + 1:e]))
                i = e + 1
                continue
            if t[i] in OPEN:
                d += 1
            elif t[i] in CLOSE:
                d -= 1
            i += 1
        return out

    def fn(self, f, path):
        """-> (signature tokens up to the body, body tokens with braces)"""
        if '::' not in path:
            return fn_in(self.toks(f), path, f)
        left, name = path.rsplit('::', 1)
        tr = None
        if ' for ' in left:
            tr, left = left.split(' for ')
        hits = []
        for (t, ty, _, body) in self.impls(f):
            tname = ' '.join(ty)
            base = ty[0]
            if left != base and tokenize(left) != ty:
                continue
            if tr is not None and (t is None or tr not in t):
                continue
            r = fns_in(body, name)
            hits += r
        if len(hits) != 1:
            raise Lost('%s: %d functions %s' % (f, len(hits), path))
        return hits[0]


def skip_angle(t, i):
    d = 0
    while True:
        if t[i] == '<':
            d += 1
        elif t[i] == '>':
            d -= 1
        elif t[i] == '>>':
            d -= 2
        elif t[i] in ('(', '['):
            i = match_close(t, i)
        i += 1
        if d <= 0:
            return i


def fns_in(t, name):
    hits, i, d = [], 0, 0
    while i < len(t):
        if t[i] == 'fn' and d == 0 and i + 1 < len(t):
            j = i + 2
            while t[j] not in ('{', ';'):
                j = match_close(t, j) + 1 if t[j] in ('(', '[') else j + 1
            if t[j] == ';':
                i = j + 1
                continue
            e = match_close(t, j)
            if t[i + 1] == name:
                hits.append((t[i:j], t[j:e + 1]))
            i = e + 1
            continue
        if t[i] in OPEN:
            d += 1
        elif t[i] in CLOSE:
            d -= 1
        i += 1
    return hits


def fn_in(t, name, f):
    h = fns_in(t, name)
    if len(h) != 1:
        raise Lost('%s: %d functions named %s' % (f, len(h), name))
    return h[0]


def find_seq(t, pat, what, nth=None):
    """all positions, or the nth (from 1)"""
    n = len(pat)
    pos = [i for i in range(len(t) - n + 1) if t[i:i + n] == pat]
    if nth == '*':
        return pos
    if nth is None:
        if len(pos) != 1:
            raise Lost('%s: `%s` occurs %d times' % (what, ' '.join(pat), len(pos)))
        return pos[0]
    if len(pos) < nth:
        raise Lost('%s: `%s` occurs %d times' % (what, ' '.join(pat), len(pos)))
    return pos[nth - 1]


def closures(t):
    """positions of closures: (start, end) of `|args| body` or `move |args| body` in argument position"""
    out, i = [], 0
    while i < len(t):
        if t[i] in ('|', '||') and i > 0 and t[i - 1] in ('(', ',', '=', 'move', '{', 'return'):
            st = i - 1 if t[i - 1] == 'move' else i
            if t[i] == '||':
                j = i + 1
            else:
                j = i + 1
                while t[j] != '|':
                    j = match_close(t, j) + 1 if t[j] in ('(', '[') else j + 1
                j += 1
            if t[j] == '->':            # a closure that names its result has a block
                while t[j] != '{':
                    j += 1
            b = j
            if t[j] == '{':
                e = match_close(t, j) + 1
            else:
                e = j
                while t[e] not in (',', ')', ';', ']', '}'):
                    e = match_close(t, e) + 1 if t[e] in OPEN else e + 1
            out.append((st, i, b, e))
            i = b          # nested closures are found as well
            continue
        i += 1
    return out


def loops_of(t):
    """[(keyword index, index of the body's open brace, index of its close)] in source order"""
    out = []
    for i, x in enumerate(t):
        if x not in ('loop', 'while', 'for'):
            continue
        if x == 'for' and (t[i + 1:i + 2] == ['<'] or (i > 0 and t[i - 1] in ('>',))):
            continue
        j = i + 1
        # the body is the first `{` at bracket depth 0 that is not the block of an `if`/`match`/`else` in the condition
        while True:
            if t[j] in ('(', '['):
                j = match_close(t, j) + 1
                continue
            if t[j] in ('if', 'match'):
                # an expression with its own block(s) inside the condition
                k = j + 1
                while t[k] != '{':
                    k = match_close(t, k) + 1 if t[k] in ('(', '[') else k + 1
                k = match_close(t, k) + 1
                while t[k] == 'else':
                    k += 1
                    while t[k] != '{':
                        k += 1
                    k = match_close(t, k) + 1
                j = k
                continue
            if t[j] == '{':
                if j == i + 1 and x != 'loop':
                    j = match_close(t, j) + 1
                    continue
                break
            j += 1
        out.append((i, j, match_close(t, j)))
    return out


def alternatives(p):
    """the patterns that a pattern with `|` in it stands for"""
    parts, cur, i = [], [], 0
    while i < len(p):
        if p[i] == '|':
            if cur:
                parts.append(cur)
            cur = []
            i += 1
            continue
        if p[i] in OPEN:
            e = match_close(p, i)
            cur.append((p[i], p[i + 1:e], p[e]))
            i = e + 1
            continue
        cur.append(p[i])
        i += 1
    parts.append(cur)
    out = []
    for part in parts:
        acc = [[]]
        for x in part:
            if isinstance(x, tuple):
                inner, k, d, seg = [[]], 0, 0, []
                # the fields, separated by commas
                fields = []
                for y in x[1]:
                    if y == ',' and d == 0:
                        fields.append(seg)
                        seg = []
                        continue
                    d += y in OPEN
                    d -= y in CLOSE
                    seg.append(y)
                fields.append(seg)
                for n, f in enumerate(fields):
                    alts = alternatives(f) if f else [[]]
                    inner = [a + ([','] if n else []) + b for a in inner for b in alts]
                acc = [a + [x[0]] + b + [x[2]] for a in acc for b in inner]
            else:
                acc = [a + [x] for a in acc]
        out += acc
    return out


def expand_guards(t):
    """match arms with both alternatives and a guard become one arm per alternative (Verus has no such arms)"""
    i = 0
    while i < len(t):
        if t[i] != 'match':
            i += 1
            continue
        j = i + 1
        while t[j] != '{':
            j = match_close(t, j) + 1 if t[j] in ('(', '[') else j + 1
        end = match_close(t, j)
        k, out = j + 1, []
        changed = False
        while k < end:
            a = k
            while t[k] != '=>':
                k = match_close(t, k) + 1 if t[k] in OPEN else k + 1
            head = t[a:k]
            b = k + 1
            if t[b] == '{':
                k = match_close(t, b) + 1
                body = t[b:k]
                if t[k] == ',':
                    k += 1
            else:
                k = b
                while k < end and t[k] != ',':
                    k = match_close(t, k) + 1 if t[k] in OPEN else k + 1
                body = t[b:k]
                if k < end:
                    k += 1
            g, d = None, 0
            for n, x in enumerate(head):
                d += x in OPEN
                d -= x in CLOSE
                if x == 'if' and d == 0:
                    g = n
                    break
            if g is not None and '|' in head[:g]:
                changed = True
                for p in alternatives(head[:g]):
                    out += p + head[g:] + ['=>'] + body + ([] if body[-1] == '}' and body[0] == '{' else [','])
            else:
                out += head + ['=>'] + body + ([] if body[-1] == '}' and body[0] == '{' else [','])
        if changed:
            t[j + 1:end] = out
        i = j + 1
    return t


class Raw(str):
    """proof text that is put between tokens"""


def drop_stmt(t, i):
    """end (exclusive) of the statement that starts at i"""
    j = i
    while True:
        if t[j] in OPEN:
            j = match_close(t, j) + 1
            if t[j - 1] == '}' and t[j] not in (';', '.', '?', 'else'):
                return j
            continue
        if t[j] == ';':
            return j + 1
        if t[j] in CLOSE:
            return j
        j += 1


def emit(tokens):
    out, line = [], []

    def flush():
        if line:
            out.append(' '.join(line))
            line.clear()
    for x in tokens:
        if isinstance(x, Raw):
            flush()
            out.extend(str(x).split('\n'))
        else:
            line.append(x)
            if x in (';', '{', '}'):
                flush()
    flush()
    return out


BT = re.compile(r'`([^`]*)`')


class Unit:
    def __init__(self, path, repo):
        self.src = Source(repo)
        self.dir = os.path.dirname(path)
        self.lines = []                 # emitted lines
        self.fnmap = []                 # (first line, last line, 'file fn')
        self.functions = []             # extracted functions
        self.rewrites = []
        self.dropped = set()
        self.vacuous = False
        self.assumed = None             # unit in which the functions being emitted are verified
        self.contracts = []             # (function, unit)
        self.path = path

    def build(self, text=None):
        self.process(open(self.path).read() if text is None else text)
        return '\n'.join(self.lines) + '\n'

    def process(self, text):
        L = text.split('\n')
        i = 0
        while i < len(L):
            l = L[i].strip()
            if l.startswith('//@include '):
                self.process(open(os.path.join(self.dir, l.split()[1])).read())
            elif l.startswith('//@assume '):
                keep, self.assumed = self.assumed, self.assumed or l.split()[2]
                self.process(open(os.path.join(self.dir, l.split()[1])).read())
                self.assumed = keep
            elif l.startswith('//@const '):
                _, f, n = l.split()[:3]
                t = strip_attrs(self.src.item(f, ('const', 'static'), n))
                m = BT.findall(l)
                for a, b in zip(m[::2], m[1::2]):
                    if len(find_seq(t, tokenize(a), n, '*')) == 1:
                        p = find_seq(t, tokenize(a), n)
                        t[p:p + len(tokenize(a))] = tokenize(b)
                        self.rewrites.append('%s %s: `%s` => `%s`' % (f, n, a, b))
                self.lines += emit(t)
            elif l.startswith('//@struct '):
                _, f, n = l.split()[:3]
                t = strip_attrs(self.src.item(f, ('struct', 'enum'), n))
                m = BT.findall(l)
                for a, b in zip(m[::2], m[1::2]):
                    p = find_seq(t, tokenize(a), n)
                    t[p:p + len(tokenize(a))] = tokenize(b)
                    self.rewrites.append('%s %s: `%s` => `%s`' % (f, n, a, b))
                self.lines += emit([x for x in self.unpub(t)])
            elif l.startswith('//@fn ') or l.startswith('//@closure '):
                j = i + 1
                while L[j].strip() != '//@end':
                    j += 1
                self.func(l, L[i + 1:j])
                i = j
            elif l.startswith('//@foreach '):
                # //@foreach x = a b c: the lines up to //@endforeach, with $x replaced
                name, vals = l[len('//@foreach '):].split('=')
                j = i + 1
                while L[j].strip() != '//@endforeach':
                    j += 1
                for v in vals.split():
                    self.process('\n'.join(L[i + 1:j]).replace('$' + name.strip(), v))
                i = j
            elif l.startswith('//@'):
                raise SystemExit('bad directive outside a function: ' + l)
            else:
                if self.assumed and re.match(r'\s*proof fn ', L[i]) and 'via_fn' not in L[i - 1]:
                    self.lines.append('#[verifier::external_body] // verified in ' + self.assumed)
                self.lines.append(L[i])
            i += 1

    def unpub(self, t):
        out, i = [], 0
        while i < len(t):
            if t[i] == 'pub':
                i += 1
                if i < len(t) and t[i] == '(' and t[i + 1] in ('crate', 'super', 'self', 'in'):
                    i = match_close(t, i) + 1
                continue
            out.append(t[i])
            i += 1
        return out

    def func(self, head, block):
        kind, rest = head[3:].split(' ', 1)
        f, rest = rest.strip().split(' ', 1)
        k = None
        path = rest.strip()
        if kind == 'closure':
            path, k = path.rsplit(' ', 1)
            k = int(k)
        label = '%s %s%s' % (f, path, '' if k is None else ' closure %d' % k)
        sig, body = self.src.fn(f, path)
        sig, body = strip_attrs(sig), strip_attrs(body)
        if f in self.src.simd:
            self.dropped.add('%s: what is compiled only for AVX2 or NEON (the scalar build is verified)' % f)
        if k is not None:
            cl = closures(body)
            if len(cl) < k:
                raise Lost('%s: %d closures' % (label, len(cl)))
            st, p, b, e = cl[k - 1]
            body = body[b:e]
            if body[0] != '{':
                body = ['{'] + body + ['}']
            sig = None
        # sections
        secs, cur = [], None
        for l in block:
            s = l.strip()
            if s.startswith('//@'):
                parts = s[3:].split(' ', 1)
                cur = [parts[0], parts[1] if len(parts) > 1 else '', []]
                secs.append(cur)
            elif cur is not None:
                cur[2].append(l)
        if self.assumed:
            spec = [x for (d, a, ls) in secs if d == 'spec' for x in ls]
            for (d, a, _) in secs:
                if d == 'sig':
                    sig = tokenize(a)
            self.lines.append('#[verifier::external_body] // verified in ' + self.assumed)
            self.lines += emit(self.sig(sig))
            self.lines += spec + ['{ unimplemented!() }']
            self.contracts.append((label, self.assumed))
            return
        spec, ins = [], []
        t = list(body)

        def txt(s):
            return Raw('\n'.join(s))
        # drops that apply to every function: messages on stderr
        for nm in ('eprintln', 'eprint'):
            while True:
                ps = [i for i in range(len(t) - 1) if t[i] == nm and t[i + 1] == '!']
                if not ps:
                    break
                e = match_close(t, ps[0] + 2) + 1
                if e < len(t) and t[e] == ';':
                    e += 1
                del t[ps[0]:e]
                self.dropped.add('eprintln!')
        # 1. token rewrites, in the order given
        for (d, a, lines) in secs:
            if d == 'subst':
                m = BT.findall(a)
                tail = a[a.rfind('`') + 1:].strip()
                pat, rep = tokenize(m[0]), tokenize(m[1])
                if tail == '*':
                    ps = find_seq(t, pat, label, '*')
                    if not ps:
                        raise Lost('%s: `%s` not found' % (label, m[0]))
                    # non-overlapping, from the end
                    last = None
                    for p in reversed(ps):
                        if last is None or p + len(pat) <= last:
                            t[p:p + len(pat)] = rep
                            last = p
                elif tail == '?':
                    for p in reversed(find_seq(t, pat, label, '*')):
                        t[p:p + len(pat)] = rep
                else:
                    p = find_seq(t, pat, label, int(tail) if tail else None)
                    t[p:p + len(pat)] = rep
                self.rewrites.append('%s: `%s` => `%s`' % (label, m[0], m[1]))
            elif d == 'closurearg':
                kk = int(a.split()[0])
                cl = closures(t)
                if len(cl) < kk:
                    raise Lost('%s: %d closures' % (label, len(cl)))
                st, p, b, e = cl[kk - 1]
                rep = tokenize(BT.findall(a)[0])
                t[st:e] = rep
                self.rewrites.append('%s: closure %d is lifted to `%s`' % (label, kk, BT.findall(a)[0]))
            elif d == 'dropstmt':
                m = BT.findall(a)
                tail = a[a.rfind('`') + 1:].strip()
                p = find_seq(t, tokenize(m[0]), label, int(tail) if tail else None)
                e = drop_stmt(t, p)
                self.rewrites.append('%s: statement dropped: `%s`' % (label, ' '.join(t[p:e])[:120]))
                del t[p:e]
            elif d == 'optctx':
                # messages for options: `.with_context(..)`, `.context(..)`
                i = 0
                while i < len(t):
                    if t[i] in ('with_context', 'context') and t[i - 1] == '.' and t[i + 1] == '(':
                        t[i:match_close(t, i + 1) + 1] = ['ok_or', '(', 'any_error', '(', ')', ')']
                        self.dropped.add('text of error messages (with_context)')
                    i += 1
        # 2. generic rewrites
        t = self.generic(t, label)
        # 3. insertions
        lp = loops_of(t)
        want = [a for (d, a, _) in secs if d == 'loops']
        nl = max([int(a) for (d, a, _) in secs if d in ('loop',)] + [0])
        if want:
            nl = int(want[0])
        if len(lp) != nl:
            raise Lost('%s: %d loops, annotations for %d' % (label, len(lp), nl))
        insert = []                     # (position, order, Raw): before the token at the position
        for n, (d, a, lines) in enumerate(secs):
            if d == 'spec':
                spec = lines
            elif d == 'sig':
                sig = tokenize(a)
            elif d == 'entry':
                insert.append((1, n, txt(lines)))
            elif d == 'exit':
                insert.append((len(t) - 1, n, txt(lines)))
            elif d in ('loop', 'loopstart', 'loopend', 'beforeloop', 'afterloop'):
                kw, o, c = lp[int(a) - 1]
                st = kw
                if st >= 2 and t[st - 1] == ':':
                    st -= 2
                if d == 'loop' and t[kw] == 'for' and any(re.search(r'\bit\.', x) for x in lines):
                    k = kw
                    while t[k] != 'in':
                        k += 1
                    if t[k + 1:k + 3] != ['it', ':']:
                        insert.append((k + 1, n, Raw('it :')))      # the iterator of the loop, for the invariants
                pos = dict(loop=o, loopstart=o + 1, loopend=c, beforeloop=st, afterloop=c + 1)[d]
                insert.append((pos, n, txt(lines)))
            elif d == 'tail':
                # the tail expression that starts with the token sequence is bound to `ret`, for proof lines after it
                p = find_seq(t, tokenize(BT.findall(a)[0]), label, '*')
                if not p:
                    raise Lost('%s: tail `%s` not found' % (label, a))
                insert.append((p[-1], n, Raw('let ret =')))
                insert.append((len(t) - 1, n, Raw(';\n' + txt(lines) + '\nret')))
            elif d in ('before', 'after'):
                m = BT.findall(a)
                tail = a[a.rfind('`') + 1:].strip()
                pat = tokenize(m[0])
                p = find_seq(t, pat, label, int(tail) if tail else None)
                insert.append((p if d == 'before' else p + len(pat), n, txt(lines)))
            elif d in ('subst', 'closurearg', 'dropstmt', 'loops', 'optctx'):
                pass
            else:
                raise SystemExit('unknown directive ' + d)
        if self.vacuous:
            insert.append((1, -1, Raw('proof { assert(false); }')))
        for (p, n, r) in sorted(insert, key=lambda x: (x[0], x[1]), reverse=True):
            t.insert(p, r)
        if sig is None:
            raise SystemExit(label + ': a closure needs //@sig')
        sig = self.sig(sig)
        a = len(self.lines) + 1
        self.lines += emit(sig)
        self.lines += spec
        self.lines += emit(t)
        self.fnmap.append((a, len(self.lines), label))
        self.functions.append(label)

    def sig(self, s):
        s = self.unpub(s)
        s = self.paths(s)
        # name the result
        d, arrow = 0, None
        for i, x in enumerate(s):
            if x in OPEN:
                d += 1
            elif x in CLOSE:
                d -= 1
            elif x == '->' and d == 0:
                arrow = i
        if arrow is not None:
            e = len(s)
            for j in range(arrow, len(s)):
                if s[j] == 'where':
                    e = j
            if s[arrow + 1:arrow + 4:2] != ['(', ':']:
                s = s[:arrow + 1] + ['(', 'res', ':'] + s[arrow + 1:e] + [')'] + s[e:]
        return s

    def paths(self, t):
        out, i = [], 0
        while i < len(t):
            if t[i:i + 5] == ['std', '::', 'cmp', '::', 'min']:
                out.append('min_usize')
                i += 5
            elif t[i:i + 5] == ['std', '::', 'cmp', '::', 'max']:
                out.append('max_usize')
                i += 5
            elif t[i:i + 2] == ['usize', '::'] and t[i + 2] == 'MAX':
                out += t[i:i + 3]
                i += 3
            else:
                out.append(t[i])
                i += 1
        return out

    def generic(self, t, label):
        t = expand_guards(t)
        t = self.paths(t)
        out, i = [], 0
        while i < len(t):
            if t[i] in ('debug_assert', 'assert') and t[i + 1] == '!' and t[i + 2] == '(':
                e = match_close(t, i + 2)
                # the condition is evaluated and must be proved
                args = t[i + 3:e]
                d = 0
                for k, x in enumerate(args):        # drop the message
                    if x in OPEN:
                        d += 1
                    elif x in CLOSE:
                        d -= 1
                    elif x == ',' and d == 0:
                        args = args[:k]
                        break
                out += ['let', 'dbg', ':', 'bool', '='] + self.generic(args, label) + [';', 'assert', '(', 'dbg', ')', ';']
                i = e + 1
                if i < len(t) and t[i] == ';':
                    i += 1
                continue
            if t[i] == 'anyhow' and t[i + 1] == '!' and t[i + 2] == '(':
                e = match_close(t, i + 2)
                out += ['any_error', '(', ')']
                self.dropped.add('text of error messages (anyhow!)')
                i = e + 1
                continue
            if t[i] == 'with_context' and t[i - 1] == '.' and t[i + 1] == '(':
                e = match_close(t, i + 1)
                out.pop()
                self.dropped.add('text of error messages (with_context)')
                i = e + 1
                continue
            if t[i][:2] == 'b"' and t[i][-1] == '"':
                import ast
                out += ['(', '[', ','.join('%du8' % b for b in ast.literal_eval(t[i])), ']', ')']
                i += 1
                continue
            if t[i:i + 2] == ['.', 'partition_point'] and t[i + 2:i + 4] == ['(', '|'] and t[i + 5] == '|':
                # a call of a method of std on a vector of slices, with the closure's meaning as its contract
                e = match_close(t, i + 2)
                path = self.pop_path(out)
                body = t[i + 6:e]
                out += ['partition_point', '(', '&'] + path + [',', '|', t[i + 4], ':', '&', 'Segment', '|', '->', '(', 'b', ':', 'bool', ')',
                        Raw('ensures'), 'b', '==', '('] + body + [')', '{'] + body + ['}', ')']
                i = e + 1
                continue
            if t[i] == 'for' and t[i + 2:i + 5] == ['in', '&', 'mut']:
                j = i + 5
                while t[j] != '{':
                    j += 1
                path = t[i + 5:j]
                out += ['for', 'ix', 'in', '0', '..'] + path + ['.', 'len', '(', ')', '{', 'let', t[i + 1], '=', '&', 'mut'] + path + ['[', 'ix', ']', ';']
                i = j + 1
                continue
            if t[i:i + 2] == ['while', 'let']:
                # while let P = E { B }  ->  loop { match E { P => { B } _ => { break; } } }  (a pop() is left as it is: the annotations name its variable)
                eq = i + 2
                while t[eq] != '=':
                    eq = match_close(t, eq) + 1 if t[eq] in OPEN else eq + 1
                o = eq + 1
                while t[o] != '{':
                    o = match_close(t, o) + 1 if t[o] in ('(', '[') else o + 1
                e = match_close(t, o)
                if t[o - 4:o] == ['.', 'pop', '(', ')']:
                    out += t[i:o]
                    i = o
                    continue
                t = t[:i] + ['loop', '{', 'match'] + t[eq + 1:o] + ['{'] + t[i + 2:eq] + ['=>'] + t[o:e + 1] + ['_', '=>', '{', 'break', ';', '}', '}', '}'] + t[e + 1:]
                continue
            if t[i] == 'panic' and t[i + 1] == '!' and t[i + 2] == '(':
                e = match_close(t, i + 2)
                out += ['unreached_panic', '(', ')']
                i = e + 1
                continue
            out.append(t[i])
            i += 1
        return out

    def pop_path(self, out):
        # the path `a.b.c` at the end of what is written so far
        path = [out.pop()]
        while out and out[-1] == '.':
            path = [out[-2], '.'] + path
            del out[-2:]
        return path

    def where(self, line):
        for (a, b, l) in self.fnmap:
            if a <= line <= b:
                return l
        return None
