// ---- occurrences of a byte string, from the first one on, not overlapping
spec fn occ(s: Seq<u8>, p: Seq<u8>, a: int) -> Seq<Segment>
    decreases s.len() - a
{
    if a < 0 || p.len() == 0 || a + p.len() > s.len() { Seq::empty() }
    else if s.subrange(a, a + p.len()) =~= p { seq![Segment { pos: a as usize, len: p.len() as usize }] + occ(s, p, a + p.len()) }
    else { occ(s, p, a + 1) }
}
// where the scan goes on after the occurrences in the first b bytes
spec fn next(h: Seq<Segment>, a: int, b: int, n: int) -> int {
    let t = if h.len() == 0 { a } else { h.last().end() };
    if t >= b + 1 - n { t } else { b + 1 - n }
}

// the occurrences are in order, do not overlap, lie in the stream, and are occurrences
proof fn lemma_occ(s: Seq<u8>, p: Seq<u8>, a: int)
    requires s.len() <= MAXLEN, p.len() > 0, 0 <= a
    ensures
        inorder(occ(s, p, a)),
        within(occ(s, p, a), s.len() as int),
        forall|i: int| 0 <= i < occ(s, p, a).len() ==> (#[trigger] occ(s, p, a)[i]).pos >= a && occ(s, p, a)[i].len == p.len()
            && s.subrange(occ(s, p, a)[i].pos as int, occ(s, p, a)[i].end()) =~= p,
        forall|i: int, j: int| 0 <= i < j < occ(s, p, a).len() ==> (#[trigger] occ(s, p, a)[i]).end() <= (#[trigger] occ(s, p, a)[j]).pos,
    decreases s.len() - a
{
    let o = occ(s, p, a);
    if a + p.len() <= s.len() {
        if s.subrange(a, a + p.len()) =~= p {
            let t = occ(s, p, a + p.len());
            lemma_occ(s, p, a + p.len());
            assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).pos >= a && o[i].len == p.len() && s.subrange(o[i].pos as int, o[i].end()) =~= p && o[i].end() <= s.len() by {
                if i > 0 { assert(o[i] == t[i - 1]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).end() <= (#[trigger] o[j]).pos by {
                assert(o[j] == t[j - 1]);
                if i > 0 { assert(o[i] == t[i - 1]); }
            }
        } else { lemma_occ(s, p, a + 1); }
    }
}
// every occurrence is listed or overlaps one that is
proof fn lemma_occ_all(s: Seq<u8>, p: Seq<u8>, a: int, k: int)
    requires s.len() <= MAXLEN, p.len() > 0, 0 <= a <= k, k + p.len() <= s.len(), s.subrange(k, k + p.len()) =~= p
    ensures exists|i: int| 0 <= i < occ(s, p, a).len() && (#[trigger] occ(s, p, a)[i]).pos <= k < occ(s, p, a)[i].end()
    decreases s.len() - a
{
    let o = occ(s, p, a);
    if s.subrange(a, a + p.len()) =~= p {
        let t = occ(s, p, a + p.len());
        if k < a + p.len() { assert(o[0].pos <= k < o[0].end()); }
        else {
            lemma_occ_all(s, p, a + p.len(), k);
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).pos <= k < t[i].end();
            assert(o[i + 1] == t[i]);
        }
    } else {
        assert(k != a);
        lemma_occ_all(s, p, a + 1, k);
    }
}
// the occurrences in the first b bytes come first, and the others are found from next() on
proof fn lemma_occ_split(s: Seq<u8>, p: Seq<u8>, a: int, b: int)
    requires s.len() <= MAXLEN, p.len() > 0, 0 <= a <= b <= s.len()
    ensures
        occ(s, p, a) =~= occ(s.take(b), p, a) + occ(s, p, next(occ(s.take(b), p, a), a, b, p.len() as int)),
        a <= next(occ(s.take(b), p, a), a, b, p.len() as int) <= b,
        within(occ(s.take(b), p, a), next(occ(s.take(b), p, a), a, b, p.len() as int)),
    decreases b - a
{
    let t = s.take(b);
    let n = p.len() as int;
    let o = occ(t, p, a);
    if a + n <= b {
        assert(t.subrange(a, a + n) =~= s.subrange(a, a + n));
        if t.subrange(a, a + n) =~= p {
            lemma_occ_split(s, p, a + n, b);
            let u = occ(t, p, a + n);
            assert(o =~= seq![Segment { pos: a as usize, len: p.len() as usize }] + u);
            assert(next(o, a, b, n) == next(u, a + n, b, n)) by { if u.len() > 0 { assert(o.last() == u.last()); } }
            assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).end() <= next(o, a, b, n) by { if i > 0 { assert(o[i] == u[i - 1]); } }
        } else {
            lemma_occ_split(s, p, a + 1, b);
        }
    }
}
// positions counted from c on
proof fn lemma_occ_skip(s: Seq<u8>, p: Seq<u8>, c: int, a: int)
    requires s.len() <= MAXLEN, 0 <= c <= s.len(), 0 <= a
    ensures
        occ(s.skip(c), p, a) =~= shift(occ(s, p, c + a), c),
    decreases s.len() - c - a
{
    let t = s.skip(c);
    let n = p.len() as int;
    if n > 0 && c + a + n <= s.len() {
        assert(t.subrange(a, a + n) =~= s.subrange(c + a, c + a + n));
        if t.subrange(a, a + n) =~= p {
            lemma_occ_skip(s, p, c, a + n);
        } else {
            lemma_occ_skip(s, p, c, a + 1);
        }
    }
}

// memchr::memmem::find_iter (not verified)
#[verifier::external_body]
fn find_all(s: &[u8], p: &Vec<u8>) -> (res: Vec<usize>)
    requires p.len() > 0, s.len() <= MAXLEN
    ensures
        res.len() == occ(s@, p@, 0).len(),
        forall|i: int| 0 <= i < res.len() ==> #[trigger] res@[i] == occ(s@, p@, 0)[i].pos,
{ unimplemented!() }

// String::as_bytes, Vec::resize
uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
fn str_bytes(s: &str) -> (res: Vec<u8>) ensures res@ == utf8(s@) { s.as_bytes().to_vec() }

//@struct src/segment/exact.rs ExactMatchSlicer

impl ExactMatchSlicer {
    spec fn all(&self) -> Seq<Segment> { self.segments@ + occ(self.src.rest(), self.pattern@, self.scanned as int) }

    proof fn lemma_all(&self)
        requires self.wf()
        ensures
            inorder(self.all()),
            within(self.all(), self.src.rest().len() as int),
            self.all().take(self.segments.len() as int) =~= self.segments@,
            forall|i: int| self.segments.len() <= i < self.all().len() ==> (#[trigger] self.all()[i]).pos >= self.scanned,
            self.pattern.len() == 0 ==> self.all() =~= Seq::empty(),
    {
        let a = self.all();
        let q = self.segments@;
        if self.pattern.len() > 0 {
            let o = occ(self.src.rest(), self.pattern@, self.scanned as int);
            lemma_occ(self.src.rest(), self.pattern@, self.scanned as int);
            assert forall|i: int, j: int| 0 <= i <= j < a.len() implies (#[trigger] a[i]).pos <= (#[trigger] a[j]).pos by {
                if j >= q.len() { assert(a[j] == o[j - q.len()]); }
                if i >= q.len() { assert(a[i] == o[i - q.len()]); } else { assert(a[i] == q[i]); assert(q[i].end() <= self.scanned); }
            }
            assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).end() <= self.src.rest().len() by {
                if i >= q.len() { assert(a[i] == o[i - q.len()]); } else { assert(a[i] == q[i]); assert(q[i].end() <= self.scanned); }
            }
            assert forall|i: int| q.len() <= i < a.len() implies (#[trigger] a[i]).pos >= self.scanned by { assert(a[i] == o[i - q.len()]); }
        }
    }

//@fn src/segment/exact.rs ExactMatchSlicer::new
//@subst `pattern.as_bytes().to_vec()` => `str_bytes(pattern)`
//@subst `parse_hex_body(false, &pattern, &mut buf)` => `parse_hex_body(false, pattern.as_slice(), buf.as_mut_slice()).ok_or(any_error())`
//@spec
    requires sok(src)
    ensures
        res matches Ok(s) ==> {
            &&& s.wf()
            &&& s.src == src
            &&& s.known() == 0 && s.limit() == 0
            // the occurrences of the bytes of the pattern in the stream
            &&& s.segs() =~= occ(src.rest(), s.pattern@, 0)
            &&& s.pattern.len() <= 64
            // which are the columns of the text (a newline or a bar would end it)
            &&& utf8(pattern@).len() < SPAN && !utf8(pattern@).contains(10) && !utf8(pattern@).contains(124) ==> columns(utf8(pattern@), 0) == Some(s.pattern@)
        }
//@before `let mut buf`
        let ghost t = pattern@;
        proof {
            let u = utf8(text);
            let blk = t.take(SPAN);
            lemma_first(blk, 10, 0);
            lemma_first(blk, 124, 0);
            if u.len() < SPAN && !u.contains(10) && !u.contains(124) {
                assert forall|j: int| 0 <= j < u.len() implies #[trigger] blk[j] == u[j] && u[j] != 10 && u[j] != 124 by { assert(u.contains(u[j])); }
                assert(blk[u.len() as int] == 10);
                lemma_first_is(blk, 10, u.len() as int);
                let k = first(blk, 124, 0);
                if k < u.len() { assert(blk[k] == u[k]); }
                assert(blk.take(u.len() as int) =~= u);
            }
        }
//@entry
        let ghost text = pattern@;
//@tail `Ok`
        proof { if ret is Ok { let s = ret->Ok_0; assert(s.all() =~= occ(src.rest(), s.pattern@, 0)); } }
//@end
}

impl SegmentStream for ExactMatchSlicer {
    spec fn wf(&self) -> bool {
        &&& sok(self.src)
        &&& inorder(self.segments@)
        &&& within(self.segments@, self.scanned as int)
        &&& self.scanned <= self.src.avail()
        &&& self.pattern.len() == 0 ==> self.segments.len() == 0
        &&& self.pattern.len() <= 64
    }
    spec fn rest(&self) -> Seq<u8> { self.src.rest() }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { self.src.avail() }
    spec fn known(&self) -> int { self.segments.len() as int }
    spec fn limit(&self) -> int { self.scanned as int }
    spec fn reach(&self) -> int { self.scanned as int }
    spec fn filled(&self) -> bool { self.src.filled() }
    spec fn full(&self) -> bool { true }
    spec fn ended(&self) -> bool { self.src.ended() }
    spec fn keeps(&self) -> bool { true }

//@fn src/segment/exact.rs SegmentStream for ExactMatchSlicer::fill_segment_buf
//@subst `for pos in memchr::memmem::find_iter(&stream[self.scanned..bytes], &self.pattern) {` => `let found = find_all(slice_subrange(stream, self.scanned, bytes), &self.pattern); for k in 0..found.len() { let pos = found[k];`
//@subst `std::cmp::max(tail, (bytes + 1).saturating_sub(len))` => `max_usize(tail, (bytes + 1).saturating_sub(len))`
//@spec
//@entry
        let ghost s0 = *self;
//@beforeloop 1
        let ghost r = self.src.rest();
        let ghost p = self.pattern@;
        let ghost a = s0.scanned as int;
        let ghost b = bytes as int;
        let ghost hit = occ(r.take(b), p, a);
        proof {
            s0.lemma_all();
            assert(stream@.subrange(a, b) =~= r.take(b).skip(a));
            lemma_occ_skip(r.take(b), p, a, 0);
            lemma_occ_split(r, p, a, b);
            lemma_occ(r.take(b), p, a);
        }
//@loop 1
            invariant
                self.scanned == a,
                self.pattern@ == p,
                len == p.len(),
                0 <= a <= b <= MAXLEN,
                found.len() == hit.len(),
                forall|i: int| 0 <= i < found.len() ==> #[trigger] found@[i] == hit[i].pos - a,
                forall|i: int| 0 <= i < hit.len() ==> (#[trigger] hit[i]).pos >= a && hit[i].len == p.len() && hit[i].end() <= b,
                self.segments@ =~= s0.segments@ + hit.take(k as int),
                tail == (if k == 0 { a } else { hit[k - 1].end() }),
//@loopend 1
                proof { assert(hit.take(k + 1) =~= hit.take(k as int).push(hit[k as int])); }
//@afterloop 1
        proof { assert(hit.take(hit.len() as int) =~= hit); }
//@tail `Ok`
        proof {
            self.lemma_all();
        }
//@end
//@fn src/segment/exact.rs SegmentStream for ExactMatchSlicer::as_slices
//@spec
//@entry
        proof { self.lemma_all(); }
//@end
//@fn src/segment/exact.rs SegmentStream for ExactMatchSlicer::consume
//@spec
//@entry
        let ghost s0 = *self;
        let ghost a0 = self.all();
        proof { self.lemma_all(); }
//@beforeloop 1
        let ghost s1 = *self;
        proof {
            lemma_below_is(s0.segments@, bytes as int, from as int);
            assert(s1.segments@ =~= s0.segments@.skip(from as int));
        }
//@loop 1
    invariant
        self.src == s1.src, self.scanned == s1.scanned, self.pattern == s1.pattern,
        self.segments.len() == s1.segments.len(), it.iter.end == s1.segments.len(),
        forall|i: int| 0 <= i < s1.segments.len() ==> (#[trigger] s1.segments@[i]).pos >= bytes,
        forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (Segment { pos: (s1.segments@[i].pos - (if i < ix { bytes as int } else { 0 })) as usize, len: s1.segments@[i].len }),
//@afterloop 1
        let ghost b = bytes as int;
        proof {
            assert(self.segments@ =~= advance(s0.segments@, b));
            let o = occ(s0.src.rest(), s0.pattern@, s0.scanned as int);
            if s0.pattern.len() > 0 { lemma_occ(s0.src.rest(), s0.pattern@, s0.scanned as int); }
            lemma_occ_skip(s0.src.rest(), s0.pattern@, b, s0.scanned - b);
            lemma_advance_parts(s0.segments@, o, b);
            lemma_below(s0.segments@, b);
        }
//@tail `Ok`
        proof {
            assert forall|i: int| 0 <= i < self.segments@.len() implies (#[trigger] self.segments@[i]).end() <= self.scanned by { assert(s0.segments@[i + from].end() <= s0.scanned); }
            lemma_advance(s0.segments@, b, s0.scanned as int);
            assert(self.wf());
            self.lemma_all();
        }
//@end
}
