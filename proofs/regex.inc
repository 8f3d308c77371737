// ---- the regex crate (not verified): what a pattern matches in a byte string is left open, but it is inside of the string
#[verifier::external_body]
struct Regex { x: usize }
struct Match { s: usize, e: usize }
impl Clone for Match { fn clone(&self) -> (res: Self) ensures res == *self { Match { s: self.s, e: self.e } } }
impl Copy for Match {}
impl Match {
    fn start(&self) -> (res: usize) ensures res == self.s { self.s }
    fn end(&self) -> (res: usize) ensures res == self.e { self.e }
    fn range(&self) -> (res: Range<usize>) ensures res.start == self.s, res.end == self.e { self.s..self.e }
    fn len(&self) -> (res: usize) requires self.s <= self.e ensures res == self.e - self.s { self.e - self.s }
}
fn range_len(r: Range<usize>) -> (res: usize) requires r.start <= r.end ensures res == r.end - r.start { r.end - r.start }
uninterp spec fn pattern_of(p: Seq<char>) -> Regex;
uninterp spec fn hits(re: Regex, s: Seq<u8>) -> Seq<Match>;
spec fn hit_in(h: Match, n: int) -> bool { h.s <= h.e <= n }
#[verifier::external_body]
proof fn axiom_hits(re: Regex, s: Seq<u8>)
    ensures forall|i: int| 0 <= i < hits(re, s).len() ==> hit_in(#[trigger] hits(re, s)[i], s.len() as int)
{}
#[verifier::external_body]
fn compile(p: &str) -> (res: Result<Regex>) ensures res matches Ok(r) ==> r == pattern_of(p@) { unimplemented!() }
#[verifier::external_body]
fn find_iter(re: &Regex, s: &[u8]) -> (res: Vec<Match>)
    ensures res@ =~= hits(*re, s@)
{ unimplemented!() }

// ---- the matches in a slice, and in slices one after another
spec fn placed(h: Seq<Match>, p: int) -> Seq<Segment> { Seq::new(h.len(), |i: int| Segment { pos: (p + h[i].s) as usize, len: (h[i].e - h[i].s) as usize }) }
spec fn matches_in(re: Regex, rest: Seq<u8>, x: Segment) -> Seq<Segment> { placed(hits(re, rest.subrange(x.pos as int, x.end())), x.pos as int) }
spec fn found(re: Regex, rest: Seq<u8>, q: Seq<Segment>) -> Seq<Segment>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else { found(re, rest, q.drop_last()) + matches_in(re, rest, q.last()) }
}
proof fn lemma_found_add(re: Regex, rest: Seq<u8>, a: Seq<Segment>, b: Seq<Segment>)
    ensures found(re, rest, a + b) =~= found(re, rest, a) + found(re, rest, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_found_add(re, rest, a, b.drop_last()); }
}
proof fn lemma_matches_in(re: Regex, rest: Seq<u8>, x: Segment, b: int)
    requires rest.len() <= MAXLEN, x.end() <= rest.len(), 0 <= b <= x.pos
    ensures
        from_on(matches_in(re, rest, x), x.pos as int), within(matches_in(re, rest, x), x.end()),
        matches_in(re, rest.skip(b), shift1(x, b)) =~= shift(matches_in(re, rest, x), b),
{
    let h = hits(re, rest.subrange(x.pos as int, x.end()));
    axiom_hits(re, rest.subrange(x.pos as int, x.end()));
    assert(rest.skip(b).subrange(x.pos - b, x.end() - b) =~= rest.subrange(x.pos as int, x.end()));
    let r = matches_in(re, rest, x);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).pos >= x.pos && r[i].end() <= x.end() && r[i].pos == x.pos + h[i].s && r[i].len == h[i].e - h[i].s by {
        assert(hit_in(h[i], x.len as int));
    }
    let t = matches_in(re, rest.skip(b), shift1(x, b));
    assert forall|i: int| 0 <= i < t.len() implies t[i] == shift(r, b)[i] by { assert(hit_in(h[i], x.len as int)); assert(r[i].pos >= b); }
}
proof fn lemma_found(re: Regex, rest: Seq<u8>, q: Seq<Segment>, lim: int, n: int, b: int)
    requires from_on(q, lim), within(q, n), n <= rest.len() <= MAXLEN, 0 <= b <= lim
    ensures
        from_on(found(re, rest, q), lim), within(found(re, rest, q), n),
        found(re, rest.skip(b), shift(q, b)) =~= shift(found(re, rest, q), b),
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        let x = q[q.len() - 1];
        assert(x.pos >= lim && x.end() <= n);
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).pos >= lim && p[i].end() <= n by { assert(p[i] == q[i]); }
        lemma_found(re, rest, p, lim, n, b);
        lemma_matches_in(re, rest, x, b);
        assert(shift(q, b).drop_last() =~= shift(p, b));
        assert(shift(q, b).last() == shift1(x, b));
        let (f, m) = (found(re, rest, p), matches_in(re, rest, x));
        let r = f + m;
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).pos >= lim && r[i].end() <= n by {
            if i < f.len() { assert(r[i] == f[i]); } else { assert(r[i] == m[i - f.len()]); }
        }
    }
}
// what --regex makes of the slices of a stream
spec fn matched(re: Regex, rest: Seq<u8>, q: Seq<Segment>) -> Seq<Segment> { isort(found(re, rest, q)) }

//@closure src/segment/regex.rs SegmentStream for RegexSlicer::fill_segment_buf 1
//@sig fn to_segment(m: Match, pos: usize) -> Segment
//@subst `m.range().len()` => `range_len(m.range())`
//@spec
    requires m.s <= m.e, pos + m.e <= MAXLEN
    ensures res == (Segment { pos: (pos + m.s) as usize, len: (m.e - m.s) as usize })
//@end
// std: v.extend(find_iter(s).map(|x| to_segment(x, pos)))
fn extend_matches(v: &mut Vec<Segment>, re: &Regex, s: &[u8], pos: usize)
    requires pos + s.len() <= MAXLEN
    ensures final(v)@ =~= old(v)@ + placed(hits(*re, s@), pos as int)
{
    let h = find_iter(re, s);
    proof { axiom_hits(*re, s@); }
    let ghost v0 = v@;
    for k in 0..h.len()
        invariant
            pos + s.len() <= MAXLEN, h@ == hits(*re, s@),
            forall|i: int| 0 <= i < h.len() ==> hit_in(#[trigger] h@[i], s.len() as int),
            v@ =~= v0 + placed(h@.take(k as int), pos as int),
    {
        assert(hit_in(h@[k as int], s.len() as int));
        v.push(to_segment(h[k], pos));
    }
    proof { assert(h@.take(h.len() as int) =~= h@); }
}

//@struct src/segment/regex.rs RegexSlicer

// q: found so far, the first c of them exposed; more: found later; m bytes may be consumed
spec fn exposed(q: Seq<Segment>, c: int, more: Seq<Segment>, m: int, done: bool) -> bool {
    &&& weak(q)
    &&& 0 <= c <= q.len()
    &&& 0 <= m
    &&& forall|i: int| c <= i < q.len() ==> (#[trigger] q[i]).pos >= m
    &&& if done { more.len() == 0 } else { from_on(more, m) && forall|i: int| 0 <= i < c ==> (#[trigger] q[i]).pos < m }
}
proof fn lemma_exposed(q: Seq<Segment>, c: int, more: Seq<Segment>, m: int, done: bool)
    requires exposed(q, c, more, m, done)
    ensures
        inorder(isort(q + more)), isort(q + more).len() == q.len() + more.len(),
        isort(q + more).take(c) =~= q.take(c),
        forall|i: int| c <= i < isort(q + more).len() ==> (#[trigger] isort(q + more)[i]).pos >= m,
        isort(q + more) =~= q.take(c) + isort(q.skip(c) + more),
        from_on(isort(q.skip(c) + more), m),
{
    let (p, r) = (q.take(c), q.skip(c) + more);
    let s = isort(q + more);
    lemma_isort(q + more);
    lemma_weak_inorder(s);
    assert(q + more =~= p + r);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies seg_le(#[trigger] p[i], #[trigger] p[j]) by { assert(seg_le(q[i], q[j])); }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < r.len() implies seg_le(#[trigger] p[i], #[trigger] r[j]) by {
        if j < q.len() - c { assert(seg_le(q[i], q[j + c])); } else { assert(r[j] == more[j - (q.len() - c)]); assert(q[i].pos < m); }
    }
    lemma_isort_prefix(p, r);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).pos >= m by { if i < q.len() - c { assert(r[i] == q[i + c]); } else { assert(r[i] == more[i - (q.len() - c)]); } }
    lemma_isort_shift(r, m);
    let t = isort(r);
    assert forall|i: int| c <= i < s.len() implies (#[trigger] s[i]).pos >= m by { assert(s[i] == t[i - c]); }
}
proof fn lemma_exposed_within(q: Seq<Segment>, more: Seq<Segment>, n: int)
    requires within(q, n), within(more, n)
    ensures within(isort(q + more), n)
{
    let r = q + more;
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).end() <= n by { if i < q.len() { assert(r[i] == q[i]); } else { assert(r[i] == more[i - q.len()]); } }
    lemma_isort_ends(r, n);
}
// g is found as well: q is sorted again
proof fn lemma_exposed_fill(q0: Seq<Segment>, c0: int, g: Seq<Segment>, rest: Seq<Segment>, m0: int, done0: bool, q: Seq<Segment>, c: int, m: int, e: bool)
    requires
        exposed(q0, c0, g + rest, m0, done0), done0 ==> e, m0 <= m,
        e ==> rest.len() == 0, from_on(rest, m),
        q == isort(q0 + g),
        if e { c == q.len() } else { 0 <= c <= q.len() && (forall|i: int| 0 <= i < c ==> (#[trigger] q[i]).pos < m) && (forall|i: int| c <= i < q.len() ==> (#[trigger] q[i]).pos >= m) },
    ensures
        exposed(q, c, rest, m, e), c0 <= c, isort(q + rest) =~= isort(q0 + (g + rest)),
{
    assert(q0 + (g + rest) =~= (q0 + g) + rest);
    lemma_isort_append(q0 + g, rest);
    lemma_isort(q0 + g);
    if !e && c < c0 {
        assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).pos >= m0 by { assert((g + rest)[i] == g[i]); }
        lemma_exposed(q0, c0, g, m0, done0);
        assert(q[c] == q0.take(c0)[c]);
        assert(q0.take(c0)[c] == q0[c]);
        assert(q0[c].pos < m0);
    }
}
// b bytes are gone
proof fn lemma_exposed_consume(q0: Seq<Segment>, c0: int, more: Seq<Segment>, m0: int, done: bool, b: int)
    requires exposed(q0, c0, more, m0, done), 0 <= b <= m0
    ensures
        exposed(advance(q0, b), c0 - below(q0, b), shift(more, b), m0 - b, done),
        0 <= below(q0, b) <= c0,
        below(isort(q0 + more), b) == below(q0, b),
        isort(advance(q0, b) + shift(more, b)) =~= advance(isort(q0 + more), b),
{
    let k = below(q0, b);
    lemma_weak_inorder(q0);
    lemma_below(q0, b);
    if k > c0 { assert(q0[c0].pos < b); }
    let s = advance(q0, b);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).pos == q0[i + k].pos - b && s[i].len == q0[i + k].len && q0[i + k].pos >= b by {}
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies seg_le(#[trigger] s[i], #[trigger] s[j]) by { assert(seg_le(q0[i + k], q0[j + k])); }
    assert forall|i: int| 0 <= i < more.len() implies (#[trigger] more[i]).pos >= b by { if !done { assert(more[i].pos >= m0); } }
    // the first k stay in front
    let p = q0.take(k);
    let r = q0.skip(k) + more;
    assert(q0 + more =~= p + r);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies seg_le(#[trigger] p[i], #[trigger] p[j]) by { assert(seg_le(q0[i], q0[j])); }
    assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).pos >= b by { if j < q0.len() - k { assert(r[j] == q0[j + k]); } else { assert(r[j] == more[j - (q0.len() - k)]); } }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < r.len() implies seg_le(#[trigger] p[i], #[trigger] r[j]) by { assert(p[i] == q0[i]); }
    lemma_isort_prefix(p, r);
    lemma_isort_shift(r, b);
    lemma_isort(q0 + more);
    let a = isort(q0 + more);
    lemma_weak_inorder(a);
    if k > 0 { assert(a[k - 1] == p[k - 1]); }
    if k < a.len() { assert(a[k] == isort(r)[0]); }
    lemma_below_is(a, b, k);
    assert(a.skip(k) =~= isort(r));
    assert(shift(r, b) =~= s + shift(more, b));
}

impl RegexSlicer {
    spec fn ahead(&self) -> Seq<Segment> { self.src.segs().skip(self.src_scanned as int) }
    spec fn to_come(&self) -> Seq<Segment> { found(self.re, self.src.rest(), self.ahead()) }
    spec fn all(&self) -> Seq<Segment> { isort(self.matches@ + self.to_come()) }
    spec fn done(&self) -> bool { self.src.ended() && self.src_scanned == self.src.segs().len() }
    spec fn base_ok(&self) -> bool {
        &&& segok(self.src)
        &&& self.src.full()
        &&& self.src_scanned == self.src.known()
        &&& from_on(self.ahead(), self.src.limit())
        &&& within(self.matches@, self.src.reach())
        &&& within(self.matches@, self.src.rest().len() as int)
        &&& exposed(self.matches@, self.count as int, self.to_come(), self.src.limit(), self.done())
    }
    proof fn lemma_all(&self)
        requires self.base_ok()
        ensures
            inorder(self.all()),
            within(self.all(), self.src.rest().len() as int),
            self.count <= self.all().len(),
            self.all().take(self.count as int) =~= self.matches@.take(self.count as int),
            within(self.matches@.take(self.count as int), self.src.reach()),
            forall|i: int| self.count <= i < self.all().len() ==> (#[trigger] self.all()[i]).pos >= self.src.limit(),
    {
        let n = self.src.rest().len() as int;
        lemma_exposed(self.matches@, self.count as int, self.to_come(), self.src.limit(), self.done());
        assert forall|i: int| 0 <= i < self.ahead().len() implies (#[trigger] self.ahead()[i]).end() <= n by { assert(self.ahead()[i] == self.src.segs()[i + self.src_scanned]); }
        lemma_found(self.re, self.src.rest(), self.ahead(), self.src.limit(), n, 0);
        lemma_exposed_within(self.matches@, self.to_come(), n);
    }
//@fn src/segment/regex.rs RegexSlicer::new
//@subst `Regex::new(pattern)?` => `compile(pattern)?`
//@spec
    requires
        segok(src), src.full(), src.known() == 0, src.limit() == 0,
    ensures
        res matches Ok(s) ==> {
            &&& s.wf()
            &&& s.rest() == src.rest()
            &&& s.known() == 0 && s.limit() == 0
            // the matches of the pattern in the slices of the source, in order
            &&& s.segs() =~= matched(pattern_of(pattern@), src.rest(), src.segs())
        }
//@tail `Ok`
        proof {
            if ret is Ok {
                let s = ret->Ok_0;
                assert(src.segs().skip(0) =~= src.segs());
                assert(s.matches@ + s.to_come() =~= s.to_come());
                lemma_found(s.re, src.rest(), src.segs(), 0, src.rest().len() as int, 0);
                if s.done() { assert(s.ahead().len() == 0); }
            }
        }
//@end
}
proof fn lemma_regex_fill(s0: RegexSlicer, s: RegexSlicer, e: bool)
    requires
        s0.base_ok(),
        segok(s.src), s.src.full(), s.src.segs() =~= s0.src.segs(), s0.src_scanned <= s.src.known(), s.src_scanned == s.src.known(),
        s.src.rest() =~= s0.src.rest(), s.re == s0.re,
        s0.src.limit() <= s.src.limit(), s0.src.reach() <= s.src.reach(),
        from_on(s.src.segs().skip(s.src.known()), s.src.limit()),
        e ==> s.src.known() == s.src.segs().len() && s.src.ended(),
        s0.src.ended() ==> e,
        s.matches@ == isort(s0.matches@ + found(s.re, s.src.rest(), s.src.segs().subrange(s0.src_scanned as int, s.src.known()))),
        if e { s.count == s.matches.len() } else {
            0 <= s.count <= s.matches.len() && (forall|i: int| 0 <= i < s.count ==> (#[trigger] s.matches@[i]).pos < s.src.limit())
            && (forall|i: int| s.count <= i < s.matches.len() ==> (#[trigger] s.matches@[i]).pos >= s.src.limit()) },
    ensures
        s.base_ok(), s.all() =~= s0.all(), s0.count <= s.count, e ==> s.count == s.all().len(),
{
    let (a, c) = (s0.src_scanned as int, s.src.known());
    let q = s.src.segs();
    let n = s.src.rest().len() as int;
    let (qg, qr) = (q.subrange(a, c), q.skip(c));
    assert(s.src.rest() == s0.src.rest());
    let (g, rest) = (found(s.re, s.src.rest(), qg), found(s.re, s.src.rest(), qr));
    assert(s0.ahead() =~= qg + qr);
    lemma_found_add(s.re, s.src.rest(), qg, qr);
    assert(s0.to_come() =~= g + rest);
    assert forall|i: int| 0 <= i < qr.len() implies (#[trigger] qr[i]).end() <= n by { assert(qr[i] == q[i + c]); }
    assert forall|i: int| 0 <= i < qg.len() implies (#[trigger] qg[i]).end() <= s.src.reach() && qg[i].end() <= n by { assert(qg[i] == q[i + a]); assert(q.take(c)[i + a] == q[i + a]); }
    assert forall|i: int| 0 <= i < qg.len() implies (#[trigger] qg[i]).pos >= s0.src.limit() by { assert(s0.ahead()[i] == qg[i]); }
    lemma_found(s.re, s.src.rest(), qr, s.src.limit(), n, 0);
    let r = if s.src.reach() <= n { s.src.reach() } else { n };
    lemma_found(s.re, s.src.rest(), qg, s0.src.limit(), r, 0);
    lemma_exposed_within(s0.matches@, g, r);
    lemma_exposed_fill(s0.matches@, s0.count as int, g, rest, s0.src.limit(), s0.done(), s.matches@, s.count as int, s.src.limit(), e);
    if !e && s.done() { assert(rest.len() == 0); }
    if e { assert(s.matches@ + rest =~= s.matches@); lemma_isort(s0.matches@ + g); lemma_isort_id(s.matches@); }
}
proof fn lemma_regex_consume(s0: RegexSlicer, s: RegexSlicer, b: int)
    requires
        s0.base_ok(), 0 <= b <= s0.src.limit(),
        segok(s.src), s.src.full(), s.src.rest() =~= s0.src.rest().skip(b), s.src.segs() =~= advance(s0.src.segs(), b),
        s.src.known() == s0.src.known() - below(s0.src.segs(), b), s.src_scanned == s.src.known(),
        s.src.limit() == s0.src.limit() - b, s.src.reach() >= s0.src.reach() - b, s0.src.ended() ==> s.src.ended(),
        s.re == s0.re, s.matches@ =~= advance(s0.matches@, b), s.count == s0.count - below(s0.matches@, b),
    ensures
        s.base_ok(),
        0 <= below(s0.matches@, b) <= s0.count,
        below(s0.all(), b) == below(s0.matches@, b),
        s.all() =~= advance(s0.all(), b),
{
    let q0 = s0.matches@;
    let k = below(q0, b);
    lemma_weak_inorder(q0);
    lemma_below(q0, b);
    let src = s0.src.segs();
    let c = s0.src_scanned as int;
    let lim = s0.src.limit();
    let n = s0.src.rest().len() as int;
    lemma_below(src, b);
    assert(s.ahead() =~= shift(s0.ahead(), b));
    assert forall|i: int| 0 <= i < s0.ahead().len() implies (#[trigger] s0.ahead()[i]).end() <= n && s0.ahead()[i].pos >= lim by { assert(s0.ahead()[i] == src[i + c]); }
    lemma_found(s0.re, s0.src.rest(), s0.ahead(), lim, n, b);
    assert(s.src.rest() == s0.src.rest().skip(b));
    assert(s.to_come() =~= shift(s0.to_come(), b));
    assert(s.matches@ == advance(q0, b));
    lemma_exposed_consume(q0, s0.count as int, s0.to_come(), lim, s0.done(), b);
    assert forall|i: int| 0 <= i < s.matches.len() implies (#[trigger] s.matches@[i]).end() <= s.src.reach() && s.matches@[i].end() <= n - b by { assert(q0[i + k].pos >= b && q0[i + k].end() <= s0.src.reach() && q0[i + k].end() <= n); }
    assert forall|i: int| 0 <= i < s.ahead().len() implies (#[trigger] s.ahead()[i]).pos >= s.src.limit() by { assert(s0.ahead()[i].pos >= lim); }
    if s.done() && !s0.done() { assert(s.ahead().len() == 0); assert(s.to_come().len() == 0); }
}

impl SegmentStream for RegexSlicer {
    spec fn wf(&self) -> bool { self.base_ok() }
    spec fn rest(&self) -> Seq<u8> { self.src.rest() }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { self.src.avail() }
    spec fn known(&self) -> int { self.count as int }
    spec fn limit(&self) -> int { self.src.limit() }
    spec fn reach(&self) -> int { self.src.reach() }
    spec fn filled(&self) -> bool { self.src.filled() }
    spec fn full(&self) -> bool { true }
    spec fn ended(&self) -> bool { self.src.ended() }
    spec fn keeps(&self) -> bool { true }

//@fn src/segment/regex.rs SegmentStream for RegexSlicer::fill_segment_buf
//@dropstmt `let to_segment`
//@subst `for s in &segments[self.src_scanned..count] {` => `for k in self.src_scanned..count { let s = &segments[k];`
//@subst `self.matches .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));` => `let r = s.as_range(); extend_matches(&mut self.matches, &self.re, slice_subrange(stream, r.start, r.end), s.pos);`
//@subst `self.matches.sort_by_key(|x| (x.pos, x.len));` => `sort_segments(&mut self.matches);`
//@spec
//@entry
        let ghost s0 = *self;
        proof { s0.lemma_all(); }
//@after `self.src.fill_segment_buf()?;`
        let ghost s1 = *self;
        let ghost a = self.src_scanned as int;
        let ghost q = self.src.segs();
        proof { lemma_segok_fill(s0.src, s1.src, is_eof, bytes as int, count as int); assert(s1.src.rest() =~= s0.src.rest()); }
//@loop 1
            invariant
                *self == (RegexSlicer { matches: self.matches, ..s1 }),
                segok(self.src), q == self.src.segs(), a == s0.src_scanned, a <= k, a <= count <= q.len(), count == self.src.known(),
                self.src.reach() <= self.src.avail() <= self.src.rest().len(),
                segments@ =~= q.take(count as int),
                stream.len() >= self.src.avail() + MARGIN_SIZE,
                stream@.subrange(0, self.src.avail()) =~= self.src.rest().subrange(0, self.src.avail()),
                self.matches@ =~= s0.matches@ + found(self.re, self.src.rest(), q.subrange(a, k as int)),
//@loopstart 1
                let ghost m1 = self.matches@;
                proof {
                    assert(segments@[k as int] == q[k as int]);
                    assert(q.take(count as int)[k as int] == q[k as int]);
                }
//@loopend 1
                proof {
                    let v = self.src.avail();
                    let x = q[k as int];
                    assert(q.subrange(a, k + 1).drop_last() =~= q.subrange(a, k as int));
                    assert(stream@.subrange(x.pos as int, x.end()) =~= stream@.subrange(0, v).subrange(x.pos as int, x.end()));
                    assert(self.src.rest().subrange(x.pos as int, x.end()) =~= self.src.rest().subrange(0, v).subrange(x.pos as int, x.end()));
                    assert(self.matches@ =~= m1 + matches_in(self.re, self.src.rest(), x));
                }
//@before `sort_segments`
        let ghost q1 = self.matches@;
//@after `sort_segments(&mut self.matches);`
        proof { lemma_sorted_is(q1, self.matches@); lemma_isort(q1); lemma_weak_inorder(self.matches@); }
//@tail `Ok`
        proof { lemma_regex_fill(s0, *self, is_eof); self.lemma_all(); }
//@end
//@fn src/segment/regex.rs SegmentStream for RegexSlicer::as_slices
//@subst `&self.matches[..self.count]` => `slice_subrange(self.matches.as_slice(), 0, self.count)`
//@spec
//@entry
        proof { self.lemma_all(); }
//@end
//@fn src/segment/regex.rs SegmentStream for RegexSlicer::consume
//@spec
//@entry
        let ghost s0 = *self;
        proof { s0.lemma_all(); lemma_weak_inorder(s0.matches@); }
//@before `if bytes == 0`
        proof {
            lemma_segok_consume(s0.src, self.src, bytes as int, src_count as int);
            lemma_below(s0.src.segs(), bytes as int);
            if bytes == 0 {
                lemma_below(s0.matches@, 0);
                lemma_below(s0.all(), 0);
                assert(s0.matches@ =~= advance(s0.matches@, 0));
                lemma_regex_consume(s0, *self, 0);
            }
        }
//@before `let to =`
        proof {
            assert(forall|i: int| 0 <= i < from ==> (#[trigger] s0.matches@[i]).pos < bytes);
            lemma_below_is(s0.matches@, bytes as int, from as int);
            if from > s0.count { assert(s0.matches@[s0.count as int].pos < bytes); }
        }
//@beforeloop 1
        let ghost s1 = *self;
        proof {
            assert(s1.matches@ =~= s0.matches@.skip(from as int));
        }
//@loop 1
    invariant
        *self == (RegexSlicer { matches: self.matches, ..s1 }),
        self.matches.len() == s1.matches.len(), it.iter.end == s1.matches.len(),
        forall|i: int| 0 <= i < s1.matches.len() ==> (#[trigger] s1.matches@[i]).pos >= bytes,
        forall|i: int| 0 <= i < self.matches.len() ==> #[trigger] self.matches@[i] == (Segment { pos: (s1.matches@[i].pos - (if i < ix { bytes as int } else { 0 })) as usize, len: s1.matches@[i].len }),
//@tail `Ok`
        proof {
            let b = bytes as int;
            assert(self.matches@ =~= advance(s0.matches@, b));
            lemma_regex_consume(s0, *self, b);
        }
//@end
}
