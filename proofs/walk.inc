//@const src/segment/walk.rs MAX_REQUEST
// ---- integers in the stream: little endian, two's complement
spec fn le(s: Seq<u8>, o: int, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { s[o] + 256 * le(s, o + 1, n - 1) } }
spec fn is_size(n: usize) -> bool { n == 1 || n == 2 || n == 4 || n == 8 }
spec fn half(n: int) -> int { if n == 1 { 0x80 } else if n == 2 { 0x8000 } else if n == 4 { 0x8000_0000 } else { 0x8000_0000_0000_0000 } }
spec fn signed(s: Seq<u8>, o: int, n: int) -> int { let u = le(s, o, n); if u >= half(n) { u - 2 * half(n) } else { u } }
// element i of the array of n-byte integers from p on; zero behind the end
spec fn element(rest: Seq<u8>, p: int, n: usize, i: i64) -> Option<i64> {
    if i < 0 { None } else if p + i * n + n > rest.len() { Some(0) } else { Some(signed(rest, p + i * n, n as int) as i64) }
}
spec fn env_at(rest: Seq<u8>, p: int) -> spec_fn(usize, i64) -> Option<i64> { |n: usize, i: i64| element(rest, p, n, i) }
spec fn sizes() -> spec_fn(usize) -> bool { |n: usize| is_size(n) }

proof fn lemma_le(s: Seq<u8>, o: int, n: int)
    requires 0 <= n <= 8
    ensures
        0 <= le(s, o, n),
        n == 1 ==> le(s, o, n) < 0x100,
        n == 2 ==> le(s, o, n) < 0x1_0000,
        n == 4 ==> le(s, o, n) < 0x1_0000_0000,
        n == 8 ==> le(s, o, n) < 0x1_0000_0000_0000_0000,
        n == 8 ==> le(s, o, 8) == le(s, o, 4) + 0x1_0000_0000 * le(s, o + 4, 4),
        n == 8 ==> le(s, o, 8) == le(s, o, 2) + 0x1_0000 * le(s, o + 2, 6) && 0 <= le(s, o + 2, 6),
        n == 8 ==> le(s, o, 8) == le(s, o, 1) + 0x100 * le(s, o + 1, 7) && 0 <= le(s, o + 1, 7),
{
    reveal_with_fuel(le, 9);
}
proof fn lemma_le_same(s: Seq<u8>, o: int, t: Seq<u8>, u: int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] s[o + i] == t[u + i]
    ensures le(s, o, n) == le(t, u, n)
    decreases n
{
    if n > 0 {
        assert(s[o + 0] == t[u + 0]);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] s[o + 1 + i] == t[u + 1 + i] by { assert(s[o + (i + 1)] == t[u + (i + 1)]); }
        lemma_le_same(s, o + 1, t, u + 1, n - 1);
    }
}
// i64::from_le_bytes
#[verifier::external_body]
fn i64_from_le(s: &[u8]) -> (res: i64)
    requires s.len() == 8
    ensures res == signed(s@, 0, 8)
{ i64::from_le_bytes(s.try_into().unwrap()) }
// the lower bytes, with the sign
proof fn lemma_lower(v: i64, u: int, n: usize, w: int)
    requires is_size(n), fits(v as int), 0 <= u < 2 * half(n as int),
        n == 1 ==> v == u + 0x100 * w, n == 2 ==> v == u + 0x1_0000 * w, n == 4 ==> v == u + 0x1_0000_0000 * w, n == 8 ==> v == (if u >= half(8) { u - 2 * half(8) } else { u }),
    ensures ((v << (64 - 8 * n) as usize) >> (64 - 8 * n) as usize) as int == (if u >= half(n as int) { u - 2 * half(n as int) } else { u })
{
    if n == 1 {
        assert(v == add(mul(256i64, v >> 8usize), v & 0xffi64) && -0x80_0000_0000_0000i64 <= v >> 8usize && v >> 8usize <= 0x7f_ffff_ffff_ffffi64 && 0i64 <= v & 0xffi64 && v & 0xffi64 < 256i64) by (bit_vector);
        assert(((v << 56usize) >> 56usize) == (if v & 0xffi64 >= 128i64 { sub(v & 0xffi64, 256i64) } else { v & 0xffi64 })) by (bit_vector);
        let (k, r) = (v >> 8usize, v & 0xffi64);
        assert(v == 256 * k + r);
        assert(w == k && r == u);
    } else if n == 2 {
        assert(v == add(mul(0x10000i64, v >> 16usize), v & 0xffffi64) && -0x8000_0000_0000i64 <= v >> 16usize && v >> 16usize <= 0x7fff_ffff_ffffi64 && 0i64 <= v & 0xffffi64 && v & 0xffffi64 < 0x10000i64) by (bit_vector);
        assert(((v << 48usize) >> 48usize) == (if v & 0xffffi64 >= 0x8000i64 { sub(v & 0xffffi64, 0x10000i64) } else { v & 0xffffi64 })) by (bit_vector);
        let (k, r) = (v >> 16usize, v & 0xffffi64);
        assert(v == 0x10000 * k + r);
        assert(w == k && r == u);
    } else if n == 4 {
        assert(v == add(mul(0x1_0000_0000i64, v >> 32usize), v & 0xffff_ffffi64) && -0x8000_0000i64 <= v >> 32usize && v >> 32usize <= 0x7fff_ffffi64 && 0i64 <= v & 0xffff_ffffi64 && v & 0xffff_ffffi64 < 0x1_0000_0000i64) by (bit_vector);
        assert(((v << 32usize) >> 32usize) == (if v & 0xffff_ffffi64 >= 0x8000_0000i64 { sub(v & 0xffff_ffffi64, 0x1_0000_0000i64) } else { v & 0xffff_ffffi64 })) by (bit_vector);
        let (k, r) = (v >> 32usize, v & 0xffff_ffffi64);
        assert(v == 0x1_0000_0000 * k + r);
        assert(w == k && r == u);
    } else {
        assert(((v << 0usize) >> 0usize) == v) by (bit_vector);
    }
}

//@struct src/segment/walk.rs SpanFetcher

// s is s0 with more bytes exposed
spec fn more_of(s0: Box<dyn ByteStream>, s: Box<dyn ByteStream>) -> bool {
    &&& sok(s)
    &&& s.filled()
    &&& s.rest() == s0.rest()
    &&& s.avail() >= s0.avail()
    &&& s.need() == s0.need()
    &&& s.nl() == s0.nl()
    &&& s0.ended() ==> s.ended()
}
struct ElementGetter<'a> {
    skip: usize,
    src: &'a mut Box<dyn ByteStream>,
    err: Option<Error>,
    s0: Ghost<Box<dyn ByteStream>>,
}
// after the first error nothing is known about the source, and the value is not used: what the closure does then is not verified
impl<'a> Getter for ElementGetter<'a> {
    spec fn wf(&self) -> bool { self.skip <= MAXLEN && (self.err is Some || more_of(self.s0@, *self.src)) }
    spec fn ids(&self) -> spec_fn(usize) -> bool { sizes() }
    spec fn env(&self) -> spec_fn(usize, i64) -> Option<i64> { env_at(self.s0@.rest(), self.skip as int) }
    spec fn failed(&self) -> bool { self.err is Some }
    type Base = Box<dyn ByteStream>;
    spec fn base(&self) -> Self::Base { self.s0@ }
    type Gfin = Box<dyn ByteStream>;
    #[verifier::prophetic]
    spec fn gfin(&self) -> Self::Gfin { *final(self.src) }
//@closure src/segment/walk.rs SpanFetcher::get_next_span 1
//@sig fn get(&mut self, id: usize, val: i64) -> i64
//@subst `Self::get_array_element(skip, id, val, src).unwrap_or_else(|e| { err.get_or_insert(e); 0 })` => `if self.err.is_some() { 0 } else { or_keep(SpanFetcher::get_array_element(self.skip, id, val, self.src), &mut self.err) }`
//@end
}
// std: r.unwrap_or_else(|e| { err.get_or_insert(e); 0 })
fn or_keep(r: Result<i64>, err: &mut Option<Error>) -> (res: i64)
    ensures r matches Ok(v) ==> res == v && *final(err) == *old(err), r is Err ==> *final(err) is Some
{
    match r {
        Ok(v) => v,
        Err(e) => { if err.is_none() { *err = Some(e); } 0 }
    }
}

// ---- lengths
spec fn toks(f: SpanFetcher) -> Seq<(Token, usize)> { f.rpn.rpn@ }
// the length that an expression gives at p; None: an error
spec fn span_at(t: Seq<(Token, usize)>, rest: Seq<u8>, p: int) -> Option<int> {
    match rpn_value(t, env_at(rest, p)) { Some(v) => if v > 0 { Some(v as int) } else { None }, None => None }
}
spec fn spans_at(fs: Seq<SpanFetcher>, rest: Seq<u8>, p: int) -> Option<Seq<int>>
    decreases fs.len()
{
    if fs.len() == 0 { Some(Seq::empty()) }
    else { match (spans_at(fs.drop_last(), rest, p), span_at(toks(fs.last()), rest, p)) { (Some(q), Some(x)) => Some(q.push(x)), _ => None } }
}
spec fn sum(q: Seq<int>) -> int
    decreases q.len()
{ if q.len() == 0 { 0 } else { sum(q.drop_last()) + q.last() } }
// slices of the lengths back to back from p on, ended at n
spec fn chunk(q: Seq<int>, p: int, n: int) -> Seq<Segment>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() }
    else {
        let a = p + sum(q.drop_last());
        if a >= n { chunk(q.drop_last(), p, n) }
        else { chunk(q.drop_last(), p, n).push(Segment { pos: a as usize, len: ((if a + q.last() < n { a + q.last() } else { n }) - a) as usize }) }
    }
}
// what --walk cuts from p on (up to an error)
spec fn walked(fs: Seq<SpanFetcher>, rest: Seq<u8>, p: int) -> Seq<Segment>
    decreases (if p < rest.len() { rest.len() - p } else { 0 })
{
    if p < 0 || p >= rest.len() { Seq::empty() }
    else {
        match spans_at(fs, rest, p) {
            None => Seq::empty(),
            Some(q) => if sum(q) <= 0 { Seq::empty() } else { chunk(q, p, rest.len() as int) + walked(fs, rest, p + sum(q)) },
        }
    }
}
spec fn fs_ok(fs: Seq<SpanFetcher>) -> bool { fs.len() > 0 && forall|i: int| 0 <= i < fs.len() ==> rpn_ok(toks(#[trigger] fs[i]), sizes()) }
spec fn clamp(x: int) -> int { if x < MAX_REQUEST { x } else { MAX_REQUEST as int } }
spec fn clamped_is(v: Seq<usize>, q: Seq<int>) -> bool { v.len() == q.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == clamp(q[i]) }

proof fn lemma_sum(q: Seq<int>)
    requires forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] > 0
    ensures sum(q) >= q.len(), q.len() > 0 ==> sum(q) >= q.last()
    decreases q.len()
{
    if q.len() > 0 { assert forall|i: int| 0 <= i < q.drop_last().len() implies #[trigger] q.drop_last()[i] > 0 by { assert(q.drop_last()[i] == q[i]); } lemma_sum(q.drop_last()); assert(q[q.len() - 1] > 0); }
}
proof fn lemma_sum_mono(q: Seq<int>, k: int)
    requires forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] > 0, 0 <= k <= q.len()
    ensures sum(q.take(k)) <= sum(q), sum(q.take(k)) >= k
    decreases q.len() - k
{
    assert forall|i: int| 0 <= i < q.take(k).len() implies #[trigger] q.take(k)[i] > 0 by { assert(q.take(k)[i] == q[i]); }
    lemma_sum(q.take(k));
    if k < q.len() { lemma_sum_mono(q, k + 1); assert(q.take(k + 1).drop_last() =~= q.take(k)); assert(q[k] > 0); } else { assert(q.take(k) =~= q); }
}
proof fn lemma_spans(fs: Seq<SpanFetcher>, rest: Seq<u8>, p: int)
    ensures spans_at(fs, rest, p) matches Some(q) ==> q.len() == fs.len() && (forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] > 0)
    decreases fs.len()
{
    if fs.len() > 0 { lemma_spans(fs.drop_last(), rest, p); }
}
proof fn lemma_env_skip(rest: Seq<u8>, p: int, b: int)
    requires 0 <= b <= p, b <= rest.len()
    ensures env_at(rest.skip(b), p - b) == env_at(rest, p)
{
    assert forall|n: usize, i: i64| env_at(rest.skip(b), p - b)(n, i) == #[trigger] env_at(rest, p)(n, i) by {
        if i >= 0 {
            assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n >= 0;
            let (o, u) = (p + i * n, p - b + i * n);
            if o + n <= rest.len() {
                assert forall|j: int| 0 <= j < n implies #[trigger] rest[o + j] == rest.skip(b)[u + j] by {}
                lemma_le_same(rest, o, rest.skip(b), u, n as int);
            }
        }
    }
    assert(env_at(rest.skip(b), p - b) =~= env_at(rest, p));
}
proof fn lemma_spans_skip(fs: Seq<SpanFetcher>, rest: Seq<u8>, p: int, b: int)
    requires 0 <= b <= p, b <= rest.len()
    ensures spans_at(fs, rest.skip(b), p - b) == spans_at(fs, rest, p)
    decreases fs.len()
{
    lemma_env_skip(rest, p, b);
    if fs.len() > 0 { lemma_spans_skip(fs.drop_last(), rest, p, b); }
}
proof fn lemma_chunk(q: Seq<int>, p: int, n: int, b: int)
    requires forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] > 0, 0 <= b <= p, n <= MAXLEN
    ensures
        inorder(chunk(q, p, n)), within(chunk(q, p, n), n), from_on(chunk(q, p, n), p),
        within(chunk(q, p, n), p + sum(q)),
        forall|i: int| 0 <= i < chunk(q, p, n).len() ==> (#[trigger] chunk(q, p, n)[i]).pos < n && chunk(q, p, n)[i].pos < p + sum(q),
        chunk(q, p - b, n - b) =~= shift(chunk(q, p, n), b),
    decreases q.len()
{
    if q.len() > 0 {
        let d = q.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] > 0 by { assert(d[i] == q[i]); }
        lemma_chunk(d, p, n, b);
        lemma_sum(d);
        assert(q[q.len() - 1] > 0);
        let c = chunk(q, p, n);
        let e = chunk(d, p, n);
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).end() <= n && c[i].end() <= p + sum(q) && c[i].pos >= p && c[i].pos < n && c[i].pos < p + sum(q) by { if i < e.len() { assert(c[i] == e[i]); } }
        assert forall|i: int, j: int| 0 <= i <= j < c.len() implies (#[trigger] c[i]).pos <= (#[trigger] c[j]).pos by {
            if j < e.len() { assert(c[i] == e[i] && c[j] == e[j]); } else if i < e.len() { assert(c[i] == e[i]); assert(e[i].end() <= p + sum(d)); }
        }
    }
}
proof fn lemma_walked(fs: Seq<SpanFetcher>, rest: Seq<u8>, p: int, b: int)
    requires 0 <= b <= p, rest.len() <= MAXLEN, b <= rest.len()
    ensures
        inorder(walked(fs, rest, p)), within(walked(fs, rest, p), rest.len() as int), from_on(walked(fs, rest, p), p),
        walked(fs, rest.skip(b), p - b) =~= shift(walked(fs, rest, p), b),
    decreases (if p < rest.len() { rest.len() - p } else { 0 })
{
    if p < rest.len() {
        lemma_spans_skip(fs, rest, p, b);
        lemma_spans(fs, rest, p);
        match spans_at(fs, rest, p) {
            None => {},
            Some(q) => {
                if sum(q) > 0 {
                    let n = rest.len() as int;
                    let (c, w) = (chunk(q, p, n), walked(fs, rest, p + sum(q)));
                    lemma_chunk(q, p, n, b);
                    lemma_walked(fs, rest, p + sum(q), b);
                    let r = walked(fs, rest, p);
                    assert(r == c + w);
                    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).end() <= n && r[i].pos >= p by { if i < c.len() { assert(r[i] == c[i]); } else { assert(r[i] == w[i - c.len()]); } }
                    assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).pos <= (#[trigger] r[j]).pos by {
                        if j < c.len() { assert(r[i] == c[i] && r[j] == c[j]); }
                        else if i >= c.len() { assert(r[i] == w[i - c.len()] && r[j] == w[j - c.len()]); }
                        else { assert(r[i] == c[i] && r[j] == w[j - c.len()]); assert(c[i].end() <= p + sum(q)); }
                    }
                    assert(walked(fs, rest.skip(b), p - b) == chunk(q, p - b, n - b) + walked(fs, rest.skip(b), p - b + sum(q)));
                }
            }
        }
    }
}
spec fn from_on(q: Seq<Segment>, n: int) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).pos >= n }

// the names of the arrays: "b", "h", "i" and "l"
spec fn span_names() -> spec_fn(Seq<u8>) -> Option<VarAttr> {
    |n: Seq<u8>| if n == seq![98u8] { Some(VarAttr { id: 1, is_array: true }) }
        else if n == seq![104u8] { Some(VarAttr { id: 2, is_array: true }) }
        else if n == seq![105u8] { Some(VarAttr { id: 4, is_array: true }) }
        else if n == seq![108u8] { Some(VarAttr { id: 8, is_array: true }) }
        else { None::<VarAttr> }
}
// the expressions are in the text
spec fn fetchers_say(fs: Seq<SpanFetcher>, s: Seq<char>) -> bool {
    &&& fs.len() == pieces(s).len()
    &&& forall|i: int, env: spec_fn(usize, i64) -> Option<i64>| 0 <= i < fs.len() ==> #[trigger] rpn_value(toks(fs[i]), env) == meaning(pieces(s)[i], span_names(), env)
}
#[verifier::external_body]
fn string_of(s: &str) -> String { s.to_string() }

impl SpanFetcher {
//@fn src/segment/walk.rs SpanFetcher::new
//@subst `let vars: HashMap<&[u8], VarAttr> = [` => `let vars: Vars = vars_of([`
//@subst `].iter().map(|(x, y)| (x.as_slice(), *y)).collect();` => `]);`
//@subst `expr.to_string()` => `string_of(expr)`
//@spec
    ensures
        res matches Ok(f) ==> rpn_ok(toks(f), sizes()) && forall|env: spec_fn(usize, i64) -> Option<i64>| #[trigger] rpn_value(toks(f), env) == meaning(expr@, span_names(), env),
        res is Err ==> forall|e: Ast| !#[trigger] is_expr(expr@, span_names(), e),
//@entry
        let ghost text = expr@;
//@before `let rpn = Rpn::new`
        proof {
            reveal_with_fuel(find_var, 6);
            assert([98u8]@ =~= seq![98u8]);
            assert([104u8]@ =~= seq![104u8]);
            assert([105u8]@ =~= seq![105u8]);
            assert([108u8]@ =~= seq![108u8]);
            assert(names_of(Some(&vars)) =~= span_names());
        }
//@after `let rpn = Rpn::new(expr, Some(&vars))?;`
        proof {
            assert(says(rpn.rpn@, text, span_names()));
            assert forall|i: usize| #[trigger] ids_of(span_names())(i) implies sizes()(i) by { let n = choose|n: Seq<u8>| #[trigger] span_names()(n) is Some && span_names()(n)->0.id == i; }
            lemma_says(rpn.rpn@, text, span_names(), sizes());
        }
//@end
//@fn src/segment/walk.rs SpanFetcher::get_array_element
//@subst `Err(anyhow!("slice index being negative (got: {index})."))` => `Err(any_error())`
//@subst `(1..=8).contains(&elem_size)` => `(1 <= elem_size && elem_size <= 8)`
//@subst `elem_size.is_power_of_two()` => `(elem_size == 1 || elem_size == 2 || elem_size == 4 || elem_size == 8)`
//@subst `offset.saturating_add(elem_size).min(MAX_REQUEST)` => `min_usize(offset.saturating_add(elem_size), MAX_REQUEST)`
//@subst `.context("failed to feed the input stream")` => ``
//@subst `i64::from_le_bytes(stream.try_into().unwrap())` => `i64_from_le(stream)`
//@subst `&stream[offset..offset + 8]` => `slice_subrange(stream, offset, offset + 8)`
//@spec
    requires sok(*old(src)), old(src).filled(), skip <= MAXLEN, is_size(elem_size)
    ensures
        res matches Ok(v) ==> more_of(*old(src), *final(src)) && element(old(src).rest(), skip as int, elem_size, index) == Some(v),
//@entry
        let ghost s0 = *src;
        proof {
            if index >= 0 {
                assert(index * elem_size >= 0) by (nonlinear_arith) requires index >= 0, elem_size >= 0;
            }
        }
//@before `let stream = src.as_slice()`
        proof {
            assert(src.rest() =~= s0.rest());
            assert(offset == skip + index * elem_size);
        }
        let ghost s1 = *src;
//@after `let stream = src.as_slice();`
        let ghost full = stream@;
//@before `let val =`
        let ghost o = offset as int;
        let ghost w = s1.rest();
        proof {
            lemma_le(stream@, 0, 8);
            lemma_le(stream@, 0, elem_size as int);
            let t = stream@;
            assert forall|i: int| 0 <= i < elem_size implies #[trigger] t[0 + i] == w[o + i] by {
                let v = s1.avail();
                assert(full.subrange(0, v)[o + i] == w.subrange(0, v)[o + i]);
            }
            lemma_le_same(t, 0, w, o, elem_size as int);
        }
//@after `let val = i64_from_le(stream);`
        proof {
            let t = stream@;
            let u = le(t, 0, elem_size as int);
            let h: int = if le(t, 0, 8) >= half(8) { 1 } else { 0 };
            let z: int = if elem_size == 1 { le(t, 1, 7) - h * 0x100_0000_0000_0000 } else if elem_size == 2 { le(t, 2, 6) - h * 0x1_0000_0000_0000 } else { le(t, 4, 4) - h * 0x1_0000_0000 };
            lemma_lower(val, u, elem_size, z);
            let sh = (64 - 8 * elem_size) as usize;
        }
//@end
//@fn src/segment/walk.rs SpanFetcher::get_next_span
//@subst `let mut err = None;` => `let mut getter = ElementGetter { skip, src: &mut *src, err: None, s0: Ghost(*old(src)) };`
//@dropstmt `let getter =`
//@subst `self.rpn.evaluate(getter)` => `self.rpn.evaluate(&mut getter)`
//@subst `if let Some(err) = err {` => `if let Some(err) = getter.err {`
//@subst `return Err(anyhow!( "slice span being non-positive on evaluating expression: {:?} (got: {}).", &self.expr, val ));` => `return Err(any_error());`
//@subst `(val as usize).min(MAX_REQUEST)` => `min_usize(val as usize, MAX_REQUEST)`
//@spec
    requires sok(*old(src)), old(src).filled(), skip <= MAXLEN, rpn_ok(toks(*self), sizes())
    ensures
        res matches Ok(v) ==> more_of(*old(src), *final(src)) && (span_at(toks(*self), old(src).rest(), skip as int) matches Some(x) && v == clamp(x)),
//@end
}

//@struct src/segment/walk.rs WalkSlicer

impl WalkSlicer {
    spec fn size(&self) -> int { self.src.rest().len() as int }
    spec fn to_come(&self) -> Seq<Segment> { walked(self.fetchers@, self.src.rest(), self.pos as int) }
    spec fn all(&self) -> Seq<Segment> { self.segments@ + self.to_come() }
    spec fn seen(&self) -> int { if self.src.avail() < self.pos { self.src.avail() } else { self.pos as int } }
    spec fn base_ok(&self) -> bool {
        &&& sok(self.src)
        &&& fs_ok(self.fetchers@)
        &&& self.spans.len() == self.fetchers.len()
        &&& self.pos <= MAXLEN + MAX_REQUEST
        &&& self.pos <= self.src.avail() || self.src.avail() == self.size()
        &&& inorder(self.segments@)
        &&& within(self.segments@, self.seen())
        &&& forall|i: int| 0 <= i < self.segments.len() ==> (#[trigger] self.segments@[i]).pos < self.pos
    }
    // the spans that are calculated at pos
    spec fn chunk_is(&self, len: int) -> bool {
        spans_at(self.fetchers@, self.src.rest(), self.pos as int) matches Some(q) && clamped_is(self.spans@, q)
            && (len < MAX_REQUEST ==> len == sum(q)) && (len >= MAX_REQUEST ==> sum(q) >= MAX_REQUEST)
    }
    proof fn lemma_all(&self)
        requires self.base_ok()
        ensures
            inorder(self.all()), within(self.all(), self.size()),
            self.all().take(self.segments.len() as int) =~= self.segments@,
            forall|i: int| self.segments.len() <= i < self.all().len() ==> (#[trigger] self.all()[i]).pos >= self.pos,
            self.pos >= self.size() ==> self.to_come().len() == 0,
    {
        let (q, w) = (self.segments@, self.to_come());
        let a = self.all();
        lemma_walked(self.fetchers@, self.src.rest(), self.pos as int, 0);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).end() <= self.size() && (i >= q.len() ==> a[i].pos >= self.pos) by { if i < q.len() { assert(a[i] == q[i]); } else { assert(a[i] == w[i - q.len()]); } }
        assert forall|i: int, j: int| 0 <= i <= j < a.len() implies (#[trigger] a[i]).pos <= (#[trigger] a[j]).pos by {
            if j < q.len() { assert(a[i] == q[i] && a[j] == q[j]); }
            else if i >= q.len() { assert(a[i] == w[i - q.len()] && a[j] == w[j - q.len()]); }
            else { assert(a[i] == q[i]); assert(q[i].pos < self.pos); }
        }
    }

//@fn src/segment/walk.rs WalkSlicer::new
//@subst `let mut fetchers = Vec::new();` => `let mut fetchers: Vec<SpanFetcher> = Vec::new();`
//@subst `let mut spans = Vec::new();` => `let mut spans: Vec<usize> = Vec::new();`
//@subst `let segments = Vec::new();` => `let segments: Vec<Segment> = Vec::new();`
//@subst `for expr in exprs.strip_suffix(',').unwrap_or(exprs).split(',') {` => `let parts = split_exprs(exprs); for k in 0..parts.len() { let expr = parts[k];`
//@spec
    requires sok(src)
    ensures
        res matches Ok(s) ==> {
            &&& s.wf()
            &&& s.rest() == src.rest()
            &&& s.known() == 0 && s.limit() == 0
            // slices of the lengths that the expressions give, back to back from the head
            &&& fetchers_say(s.fetchers@, exprs@)
            &&& s.segs() =~= walked(s.fetchers@, src.rest(), 0)
        },
        // what is refused is not an expression
        res is Err ==> exists|i: int| 0 <= i < pieces(exprs@).len() && forall|e: Ast| !#[trigger] is_expr(#[trigger] pieces(exprs@)[i], span_names(), e),
//@loop 1
            invariant
                parts.len() == pieces(exprs@).len(), parts.len() > 0,
                fetchers.len() == k, spans.len() == k,
                forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts@[i])@ == pieces(exprs@)[i],
                forall|i: int| 0 <= i < k ==> rpn_ok(toks(#[trigger] fetchers@[i]), sizes()),
                forall|i: int, env: spec_fn(usize, i64) -> Option<i64>| 0 <= i < k ==> #[trigger] rpn_value(toks(fetchers@[i]), env) == meaning(pieces(exprs@)[i], span_names(), env),
//@loopstart 1
            proof { assert(parts@[k as int]@ == pieces(exprs@)[k as int]); }
//@end
//@fn src/segment/walk.rs WalkSlicer::calc_next_chunk_len
//@subst `for (i, f) in self.fetchers.iter().enumerate() {` => `for i in 0..self.fetchers.len() { let f = &self.fetchers[i];`
//@spec
    requires old(self).base_ok(), old(self).src.filled(), old(self).pos < old(self).src.avail()
    ensures
        res matches Ok(len) ==> {
            &&& final(self).base_ok() && final(self).chunk_is(len as int)
            &&& more_of(old(self).src, final(self).src)
            &&& *final(self) == (WalkSlicer { src: final(self).src, spans: final(self).spans, ..*old(self) })
            &&& spans_at(old(self).fetchers@, old(self).src.rest(), old(self).pos as int) matches Some(q) && clamped_is(final(self).spans@, q)
                && (len < MAX_REQUEST ==> len == sum(q)) && (len >= MAX_REQUEST ==> sum(q) >= MAX_REQUEST)
        }
//@entry
        let ghost s0 = *self;
        let ghost fs = self.fetchers@;
        let ghost p = self.pos as int;
        let ghost rest = self.src.rest();
        proof { assert(fs.take(0) =~= Seq::<SpanFetcher>::empty()); }
//@loop 1
            invariant
                s0.base_ok(), s0 == *old(self), s0.src.filled(),
                *self == (WalkSlicer { src: self.src, spans: self.spans, ..s0 }),
                fs == s0.fetchers@, p == s0.pos, rest == s0.src.rest(), p < s0.src.avail(),
                more_of(s0.src, self.src),
                self.spans.len() == fs.len(),
                spans_at(fs.take(i as int), rest, p) is Some,
                clamped_is(self.spans@.take(i as int), spans_at(fs.take(i as int), rest, p)->0),
                chunk_len < MAX_REQUEST ==> chunk_len == sum(spans_at(fs.take(i as int), rest, p)->0),
                chunk_len >= MAX_REQUEST ==> sum(spans_at(fs.take(i as int), rest, p)->0) >= MAX_REQUEST,
//@loopstart 1
            let ghost q = spans_at(fs.take(i as int), rest, p)->0;
            let ghost v = self.spans@;
            proof {
                assert(fs.take(i + 1).drop_last() =~= fs.take(i as int));
                assert(fs.take(i + 1).last() == fs[i as int]);
                lemma_spans(fs.take(i as int), rest, p);
                lemma_sum(q);
            }
//@loopend 1
            proof {
                let x = span_at(toks(fs[i as int]), rest, p)->0;
                assert(spans_at(fs.take(i + 1), rest, p) == Some(q.push(x)));
                assert(q.push(x).drop_last() =~= q);
                assert(sum(q.push(x)) == sum(q) + x);
                assert forall|j: int| 0 <= j < i + 1 implies #[trigger] self.spans@.take(i + 1)[j] == clamp(q.push(x)[j]) by { if j < i { assert(v.take(i as int)[j] == clamp(q[j])); } }
            }
//@afterloop 1
        proof { assert(fs.take(fs.len() as int) =~= fs); assert(self.spans@.take(fs.len() as int) =~= self.spans@); }
//@end
//@fn src/segment/walk.rs WalkSlicer::extend_segment_buf
//@subst `self.pos.saturating_add(chunk_len).min(MAX_REQUEST)` => `min_usize(self.pos.saturating_add(chunk_len), MAX_REQUEST)`
//@subst `self.pos + span` => `self.pos + *span`
//@subst `self.pos += span;` => `self.pos += *span;`
//@subst `for span in &self.spans {` => `let mut k: usize = 0; while k < self.spans.len() { let span = &self.spans[k]; k += 1;`
//@spec
    requires
        old(self).base_ok(), old(self).src.filled(), old(self).pos < old(self).src.avail(),
        old(self).chunk_is(chunk_len as int),
    ensures
        res matches Ok((e, b)) ==> {
            &&& final(self).base_ok()
            &&& more_of(old(self).src, final(self).src)
            &&& final(self).fetchers == old(self).fetchers
            &&& final(self).all() =~= old(self).all()
            &&& final(self).pos > old(self).pos
            &&& final(self).segments.len() >= old(self).segments.len()
            &&& b == final(self).src.avail()
            &&& e ==> b == final(self).src.rest().len() && final(self).src.ended()
            &&& old(self).src.ended() ==> e
        }
//@entry
        let ghost s0 = *self;
        let ghost p = self.pos as int;
        let ghost n = self.size();
        let ghost q = spans_at(self.fetchers@, self.src.rest(), p)->0;
        proof { lemma_spans(self.fetchers@, self.src.rest(), p); lemma_sum(q); assert(q.take(0) =~= Seq::<int>::empty()); assert(q.take(q.len() as int) =~= q); }
//@beforeloop 1
        proof { assert(self.src.rest() =~= s0.src.rest()); }
//@loop 1
            invariant
                s0.base_ok(), s0 == *old(self), p == s0.pos, n == s0.size(), n <= MAXLEN, p < n,
                *self == (WalkSlicer { src: self.src, segments: self.segments, pos: self.pos, ..s0 }),
                more_of(s0.src, self.src), n == self.size(), bytes == self.src.avail(), bytes <= n,
                is_eof ==> bytes == n && self.src.ended(), s0.src.ended() ==> is_eof,
                !is_eof ==> p + sum(q) <= bytes,
                q.len() == s0.spans.len(), q.len() > 0, q.take(q.len() as int) == q, clamped_is(s0.spans@, q),
                forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] > 0,
                k <= q.len(),
                self.pos == p + sum(q.take(k as int)) || (is_eof && self.pos >= n && p + sum(q.take(k as int)) >= n && self.pos <= n + MAX_REQUEST),
                p < bytes,
                self.pos < n + MAX_REQUEST,
                k > 0 ==> self.pos > p,
                self.segments@ =~= s0.segments@ + chunk(q.take(k as int), p, n),
            ensures
                self.pos > p, self.pos < n + MAX_REQUEST,
                self.segments@ =~= s0.segments@ + chunk(q, p, n),
                self.pos == p + sum(q) || (is_eof && self.pos >= n && p + sum(q) >= n),
            decreases q.len() - k
//@loopstart 1
            let ghost k0 = k as int;
            proof {
                assert(q.take(k0 + 1).drop_last() =~= q.take(k0));
                assert(q.take(k0 + 1).last() == q[k0]);
                lemma_sum_mono(q, k0);
                lemma_sum_mono(q, k0 + 1);
                assert(q[k0] > 0);
                assert(s0.spans@[k0] == clamp(q[k0]));
            }
//@before `break;`
                proof {
                    lemma_chunk_ended(q, p, n, k0);
                    assert(p + sum(q.take(k0)) >= n);
                }
//@afterloop 1
        let ghost s1 = *self;
        proof { lemma_extended(s0, s1, q, is_eof); }
//@end
}
// behind the end
proof fn lemma_chunk_ended(q: Seq<int>, p: int, n: int, k: int)
    requires forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] > 0, 0 <= k <= q.len(), p + sum(q.take(k)) >= n
    ensures chunk(q, p, n) =~= chunk(q.take(k), p, n), p + sum(q) >= n
    decreases q.len() - k
{
    if k < q.len() {
        let t = q.take(k + 1);
        assert(t.drop_last() =~= q.take(k));
        assert(t.last() == q[k]);
        lemma_chunk_ended(q, p, n, k + 1);
    } else { assert(q.take(k) =~= q); }
}
proof fn lemma_extended(s0: WalkSlicer, s: WalkSlicer, q: Seq<int>, e: bool)
    requires
        s0.base_ok(), s0.pos < s0.size(), more_of(s0.src, s.src), s.fetchers == s0.fetchers, s.spans == s0.spans,
        spans_at(s0.fetchers@, s0.src.rest(), s0.pos as int) == Some(q),
        s.segments@ == s0.segments@ + chunk(q, s0.pos as int, s0.size()),
        s.pos == s0.pos + sum(q) || (e && s.pos >= s.size() && s0.pos + sum(q) >= s.size()),
        s.pos < s.size() + MAX_REQUEST, s.pos > s0.pos,
        e ==> s.src.avail() == s.size(), !e ==> s0.pos + sum(q) <= s.src.avail(),
    ensures s.base_ok(), s.all() =~= s0.all()
{
    let (p, n) = (s0.pos as int, s0.size());
    let (a, c) = (s0.segments@, chunk(q, p, n));
    let z = s.segments@;
    assert(s.src.rest() == s0.src.rest());
    lemma_spans(s0.fetchers@, s0.src.rest(), p);
    lemma_sum(q);
    lemma_chunk(q, p, n, 0);
    assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).end() <= s.seen() && z[i].pos < s.pos by { if i < a.len() { assert(z[i] == a[i]); } else { assert(z[i] == c[i - a.len()]); } }
    assert forall|i: int, j: int| 0 <= i <= j < z.len() implies (#[trigger] z[i]).pos <= (#[trigger] z[j]).pos by {
        if j < a.len() { assert(z[i] == a[i] && z[j] == a[j]); }
        else if i >= a.len() { assert(z[i] == c[i - a.len()] && z[j] == c[j - a.len()]); }
        else { assert(z[i] == a[i] && z[j] == c[j - a.len()]); }
    }
    assert(s0.to_come() == c + walked(s0.fetchers@, s0.src.rest(), p + sum(q)));
    assert(s.to_come() =~= walked(s0.fetchers@, s0.src.rest(), p + sum(q)));
    assert(s.all() =~= a + (c + walked(s0.fetchers@, s0.src.rest(), p + sum(q))));
}
proof fn lemma_walk_consume(s0: WalkSlicer, s: WalkSlicer, b: int)
    requires
        s0.base_ok(), 0 <= b <= s0.seen(), sok(s.src), s.src.rest() == s0.src.rest().skip(b), s.src.avail() >= s0.src.avail() - b,
        s.fetchers == s0.fetchers, s.spans == s0.spans, s.pos == s0.pos - b, s.segments@ == advance(s0.segments@, b),
    ensures
        s.base_ok(), s.all() =~= advance(s0.all(), b), below(s0.all(), b) == below(s0.segments@, b), 0 <= below(s0.all(), b) <= s0.segments.len(),
        s.seen() >= s0.seen() - b,
{
    s0.lemma_all();
    let (a, w) = (s0.segments@, s0.to_come());
    lemma_walked(s0.fetchers@, s0.src.rest(), s0.pos as int, b);
    lemma_advance_parts(a, w, b);
    lemma_advance(a, b, s0.seen());
    lemma_below(a, b);
    assert forall|i: int| 0 <= i < s.segments.len() implies (#[trigger] s.segments@[i]).pos < s.pos by { assert(a[i + below(a, b)].pos < s0.pos); }
}

impl SegmentStream for WalkSlicer {
    spec fn wf(&self) -> bool { self.base_ok() }
    spec fn rest(&self) -> Seq<u8> { self.src.rest() }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { self.src.avail() }
    spec fn known(&self) -> int { self.segments.len() as int }
    spec fn limit(&self) -> int { self.seen() }
    spec fn reach(&self) -> int { self.seen() }
    spec fn filled(&self) -> bool { self.src.filled() }
    spec fn full(&self) -> bool { true }
    spec fn ended(&self) -> bool { self.src.ended() }
    spec fn keeps(&self) -> bool { true }

//@fn src/segment/walk.rs SegmentStream for WalkSlicer::fill_segment_buf
//@subst `(is_eof, bytes) = self.extend_segment_buf(chunk_len)?;` => `let t = self.extend_segment_buf(chunk_len)?; is_eof = t.0; bytes = t.1;`
//@spec
//@entry
        let ghost s0 = *self;
        proof { s0.lemma_all(); }
//@beforeloop 1
        proof { assert(self.src.rest() =~= s0.src.rest()); }
//@loop 1
            invariant
                s0 == *old(self), s0.base_ok(), self.base_ok(), self.all() =~= s0.all(),
                more_of(s0.src, self.src), self.fetchers == s0.fetchers,
                bytes == self.src.avail(), window <= bytes, self.pos >= s0.pos, self.segments.len() >= s0.segments.len(),
                is_eof ==> bytes == self.size() && self.src.ended(), s0.src.ended() ==> is_eof,
            decreases (if self.pos < self.size() { self.size() - self.pos } else { 0 })
//@tail `Ok`
        proof { self.lemma_all(); }
//@end
//@fn src/segment/walk.rs SegmentStream for WalkSlicer::as_slices
//@spec
//@entry
        proof { self.lemma_all(); }
//@end
//@fn src/segment/walk.rs SegmentStream for WalkSlicer::consume
//@spec
//@entry
        let ghost s0 = *self;
        proof { s0.lemma_all(); }
//@before `let to =`
        proof {
            assert(forall|i: int| 0 <= i < from ==> (#[trigger] s0.segments@[i]).pos < bytes);
            lemma_below_is(s0.segments@, bytes as int, from as int);
        }
//@beforeloop 1
        let ghost s1 = *self;
        proof { assert(s1.segments@ =~= s0.segments@.skip(from as int)); }
//@loop 1
    invariant
        *self == (WalkSlicer { segments: self.segments, ..s1 }),
        self.segments.len() == s1.segments.len(), it.iter.end == s1.segments.len(),
        forall|i: int| 0 <= i < s1.segments.len() ==> (#[trigger] s1.segments@[i]).pos >= bytes,
        forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (Segment { pos: (s1.segments@[i].pos - (if i < ix { bytes as int } else { 0 })) as usize, len: s1.segments@[i].len }),
//@tail `Ok`
        proof {
            assert(self.segments@ =~= advance(s0.segments@, bytes as int));
            lemma_walk_consume(s0, *self, bytes as int);
        }
//@end
}
