// ---- the slices of a guide
// the records in the order of their offsets, up to the first one that goes back
spec fn goes_on(r: Rec, low: int, base: int) -> bool { base + low <= r.off < MAXNUM && r.span < MAXNUM }
spec fn named(low: int, recs: Seq<Rec>, base: int) -> Seq<Segment>
    decreases recs.len()
{
    if recs.len() == 0 || !goes_on(recs[0], low, base) { Seq::empty() }
    else { seq![Segment { pos: (recs[0].off - base) as usize, len: recs[0].span as usize }] + named(recs[0].off - base, recs.skip(1), base) }
}
spec fn low(q: Seq<Segment>) -> int { if q.len() == 0 { 0 } else { q.last().pos as int } }

proof fn lemma_named(l: int, recs: Seq<Rec>, base: int)
    requires 0 <= base, 0 <= l
    ensures
        inorder(named(l, recs, base)),
        forall|i: int| 0 <= i < named(l, recs, base).len() ==> (#[trigger] named(l, recs, base)[i]).pos >= l && named(l, recs, base)[i].end() <= 2 * MAXNUM,
    decreases recs.len()
{
    let q = named(l, recs, base);
    if recs.len() > 0 && goes_on(recs[0], l, base) {
        let t = named(recs[0].off - base, recs.skip(1), base);
        lemma_named(recs[0].off - base, recs.skip(1), base);
        assert forall|i: int, j: int| 0 <= i <= j < q.len() implies (#[trigger] q[i]).pos <= (#[trigger] q[j]).pos by {
            if i > 0 { assert(q[i] == t[i - 1]); }
            if j > 0 { assert(q[j] == t[j - 1]); }
        }
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).pos >= l && q[i].end() <= 2 * MAXNUM by { if i > 0 { assert(q[i] == t[i - 1]); } }
    }
}
proof fn lemma_named_shift(l: int, recs: Seq<Rec>, base: int, b: int)
    requires 0 <= base, 0 <= b <= l
    ensures named(l - b, recs, base + b) =~= shift(named(l, recs, base), b)
    decreases recs.len()
{
    if recs.len() > 0 && goes_on(recs[0], l, base) {
        lemma_named_shift(recs[0].off - base, recs.skip(1), base, b);
    }
}

// std: v.last().map_or(0, |x| x.pos)
fn last_pos(v: &Vec<Segment>) -> (res: usize)
    ensures res == low(v@)
{ if v.len() == 0 { 0 } else { v[v.len() - 1].pos } }
// std: v.last().map_or(0, |x| max(x.tail(), x.pos + 1))
fn last_need(v: &Vec<Segment>) -> (res: usize)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v@[i]).end() <= 2 * MAXNUM
    ensures res <= 2 * MAXNUM + 1
{ if v.len() == 0 { 0 } else { max_usize(v[v.len() - 1].tail(), v[v.len() - 1].pos + 1) } }

// InoutFormat::from_str("xxx") (not verified)
#[verifier::external_body]
fn guide_format() -> (res: InoutFormat)
    ensures res.offset is Hexadecimal, res.span is Hexadecimal, res.body is Hexadecimal
{ unimplemented!() }
// the records of a guide
spec fn guide_recs(text: Seq<u8>) -> Seq<Rec> { records_of(PNum::Hex, PNum::Hex, text) }

//@struct src/segment/guided.rs GuidedSlicer

impl GuidedSlicer {
    spec fn raw(&self) -> Seq<Segment> { self.segments@ + named(low(self.segments@), self.guide.recs(), self.src_consumed as int) }
    spec fn size(&self) -> int { self.src.rest().len() as int }
    spec fn all(&self) -> Seq<Segment> { clipped(self.raw(), self.size()) }
    spec fn base_ok(&self) -> bool {
        &&& sok(self.src)
        &&& self.src.need() + 2 * MAXNUM + 64 <= MAXREQ
        &&& self.src_consumed + self.size() <= MAXLEN
        &&& self.guide.wf()
        &&& inorder(self.segments@)
        &&& forall|i: int| 0 <= i < self.segments.len() ==> (#[trigger] self.segments@[i]).end() <= 2 * MAXNUM
        &&& self.guide_consumed <= self.segments.len() <= self.guide_consumed + 1
        &&& forall|i: int| 0 <= i < self.guide_consumed ==> (#[trigger] self.segments@[i]).end() <= self.src.avail() && self.segments@[i].pos < self.src.avail()
        &&& self.max_consume <= self.src.avail()
        &&& self.guide_consumed < self.segments.len() ==> self.max_consume <= self.segments@[self.guide_consumed as int].pos
        &&& self.guide_consumed == self.segments.len() ==> self.guide.recs().len() == 0 || self.max_consume == 0
    }

    proof fn lemma_raw(&self)
        requires inorder(self.segments@)
        ensures inorder(self.raw())
    {
        let (q, l) = (self.segments@, low(self.segments@));
        let t = named(l, self.guide.recs(), self.src_consumed as int);
        lemma_named(l, self.guide.recs(), self.src_consumed as int);
        let r = self.raw();
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).pos <= (#[trigger] r[j]).pos by {
            if i < q.len() { assert(r[i] == q[i]); if q.len() > 0 { assert(q[i].pos <= q[q.len() - 1].pos); } } else { assert(r[i] == t[i - q.len()]); }
            if j < q.len() { assert(r[j] == q[j]); } else { assert(r[j] == t[j - q.len()]); }
        }
    }
    proof fn lemma_all(&self)
        requires self.base_ok()
        ensures
            inorder(self.raw()),
            inorder(self.all()),
            within(self.all(), self.size()),
            self.guide_consumed <= self.all().len(),
            self.all().take(self.guide_consumed as int) =~= self.segments@.take(self.guide_consumed as int),
            within(self.segments@.take(self.guide_consumed as int), self.src.avail()),
            forall|i: int| self.guide_consumed <= i < self.all().len() ==> (#[trigger] self.all()[i]).pos >= self.max_consume,
    {
        self.lemma_raw();
        let (r, n, g) = (self.raw(), self.size(), self.guide_consumed as int);
        lemma_clipped(r, n);
        lemma_below(r, n);
        if below(r, n) < g { assert(r[below(r, n)] == self.segments@[below(r, n)]); }
        assert forall|i: int| 0 <= i < g implies self.all()[i] == self.segments@[i] by { assert(r[i] == self.segments@[i]); }
        assert forall|i: int| 0 <= i < self.segments@.take(g).len() implies (#[trigger] self.segments@.take(g)[i]).end() <= self.src.avail() by { assert(self.segments@.take(g)[i] == self.segments@[i]); }
        assert forall|i: int| g <= i < self.all().len() implies (#[trigger] self.all()[i]).pos >= self.max_consume by {
            if g < self.segments.len() { assert(r[g] == self.segments@[g]); assert(r[g].pos <= r[i].pos); }
        }
    }

    proof fn lemma_consumed(&self, s0: GuidedSlicer, b: int)
        requires
            s0.base_ok(),
            0 <= b <= s0.max_consume,
            self.segments@ == advance(s0.segments@, b),
            self.guide == s0.guide,
            self.src_consumed == s0.src_consumed + b,
        ensures
            inorder(self.segments@),
            0 <= below(s0.segments@, b) <= s0.guide_consumed,
            below(s0.all(), b) == below(s0.segments@, b),
            clipped(self.raw(), s0.size() - b) =~= advance(s0.all(), b),
    {
        let base = s0.src_consumed as int;
        let q = s0.segments@;
        let more = named(low(q), s0.guide.recs(), base);
        s0.lemma_raw();
        lemma_named(low(q), s0.guide.recs(), base);
        if b > 0 && more.len() > 0 {
            assert(s0.guide_consumed < q.len());
            assert(b <= low(q));
        }
        lemma_advance_parts(q, more, b);
        lemma_clipped_advance(s0.raw(), s0.size(), b);
        lemma_below(q, b);
        let k = s0.guide_consumed as int;
        if below(q, b) > k { assert(q[k].pos < b); }
        if b == 0 {
            assert(self.segments@ =~= q);
            assert(shift(more, 0) =~= more);
        } else if s0.guide_consumed < q.len() {
            lemma_named_shift(low(q), s0.guide.recs(), base, b);
            assert(low(self.segments@) == low(q) - b);
        } else {
            assert(s0.guide.recs().len() == 0);
        }
        assert(self.raw() =~= advance(s0.raw(), b));
        let t = self.segments@;
        assert forall|i: int, j: int| 0 <= i <= j < t.len() implies (#[trigger] t[i]).pos <= (#[trigger] t[j]).pos by { assert(q[i + below(q, b)].pos <= q[j + below(q, b)].pos); assert(q[i + below(q, b)].pos >= b); }
    }

//@fn src/segment/guided.rs GuidedSlicer::new
//@subst `InoutFormat::from_str("xxx").unwrap()` => `guide_format()`
//@spec
    requires
        sok(src),
        src.need() + 2 * MAXNUM + 64 <= MAXREQ,
        tok(guide),
    ensures
        res.wf(),
        res.src == src,
        res.known() == 0, res.limit() == 0,
        // [offset, offset + length) of the records, in their order, clipped by the end of the stream
        res.segs() =~= clipped(named(0, guide_recs(guide.rest()), 0), src.rest().len() as int),
//@exit
//@end

//@fn src/segment/guided.rs GuidedSlicer::extend_segment_buf
//@subst `self.segments.last().map_or(0, |x| x.pos)` => `last_pos(&self.segments)`
//@subst `self.segments.retain(|x| x.pos < bytes);` => `retain_below(&mut self.segments, bytes);`
//@spec
    requires
        old(self).base_ok(),
        bytes == old(self).src.avail(),
        is_eof ==> bytes == old(self).size() && old(self).src.ended(),
    ensures
        res matches Ok(_) ==> {
            &&& final(self).base_ok()
            &&& final(self).src == old(self).src
            &&& final(self).src_consumed == old(self).src_consumed
            &&& final(self).guide_consumed >= old(self).guide_consumed
            &&& final(self).max_consume >= old(self).max_consume
            &&& final(self).all() =~= old(self).all()
            &&& is_eof ==> final(self).guide_consumed == final(self).all().len() && final(self).max_consume == bytes
        }
//@entry
        let ghost s0 = *self;
        let ghost (m0, g0, n, base) = (self.max_consume as int, self.guide_consumed as int, self.size(), self.src_consumed as int);
        proof { s0.lemma_all(); }
//@loop 1
            invariant
                self.src == s0.src, self.src_consumed == s0.src_consumed, self.guide_consumed == g0,
                self.max_consume == bytes,
                s0 == *old(self),
                s0.base_ok(),
                bytes == s0.src.avail(),
                n == s0.size(), base == s0.src_consumed, m0 == s0.max_consume, g0 == s0.guide_consumed,
                bytes <= n <= MAXLEN,
                base + n <= MAXLEN,
                self.guide.wf(),
                inorder(self.segments@),
                forall|i: int| 0 <= i < self.segments.len() ==> (#[trigger] self.segments@[i]).end() <= 2 * MAXNUM,
                g0 <= self.segments.len(),
                forall|i: int| 0 <= i < g0 ==> (#[trigger] self.segments@[i]).end() <= bytes && self.segments@[i].pos < bytes,
                !is_eof ==> forall|i: int| 0 <= i < self.segments.len() - 1 ==> (#[trigger] self.segments@[i]).end() <= bytes && self.segments@[i].pos < bytes,
                g0 < self.segments.len() ==> m0 <= self.segments@.last().pos,
                g0 == self.segments.len() ==> self.guide.recs().len() == 0 || m0 == 0,
                self.raw() =~= s0.raw(),
            ensures
                self.guide.recs().len() == 0,
                !is_eof ==> forall|i: int| 0 <= i < self.segments.len() ==> (#[trigger] self.segments@[i]).end() <= bytes && self.segments@[i].pos < bytes,
            decreases self.guide.recs().len()
//@loopstart 1
            let ghost s1 = *self;
//@loopend 1
            proof {
                let recs = s1.guide.recs();
                assert(goes_on(recs[0], low(s1.segments@), base));
                let x = Segment { pos: (recs[0].off - base) as usize, len: recs[0].span as usize };
                assert(self.segments@ =~= s1.segments@.push(x));
                assert(self.guide.recs() =~= recs.skip(1));
                assert(self.raw() =~= s1.raw());
                assert forall|i: int, j: int| 0 <= i <= j < self.segments.len() implies (#[trigger] self.segments@[i]).pos <= (#[trigger] self.segments@[j]).pos by {
                    if i < s1.segments.len() { assert(s1.segments@[i].pos <= s1.segments@[s1.segments.len() - 1].pos); }
                }
            }
//@before `self.max_consume = min_usize(self.max_consume, last.pos);`
                    let ghost h = self.segments.len() - 1;
                    proof {
                        assert(*last == self.segments@[h]);
                        if h + 1 == g0 { assert(self.segments@[h].end() <= bytes); }
                    }
//@before `return Ok(())`
                    proof {
                        assert(self.raw() =~= s0.raw());
                        assert(self.base_ok());
                    }
//@before `if is_eof {`
        proof { assert(self.raw() =~= self.segments@); lemma_filter_below(self.segments@, n); self.lemma_raw(); }
//@beforeloop 2
            let ghost s2 = *self;
            let ghost kept = s2.segments@;
            proof { lemma_below(s0.raw(), n); assert(kept =~= s0.raw().take(below(s0.raw(), n))); }
//@loop 2
            invariant
                self.src == s2.src, self.src_consumed == s2.src_consumed, self.guide_consumed == s2.guide_consumed, self.max_consume == s2.max_consume, self.guide == s2.guide,
                self.segments.len() == kept.len(), it.iter.end == kept.len(),
                bytes == n,
                forall|i: int| 0 <= i < kept.len() ==> (#[trigger] kept[i]).pos < n && kept[i].end() <= 2 * MAXNUM,
                forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (if i < ix { Segment { pos: kept[i].pos, len: ((if kept[i].end() < n { kept[i].end() } else { n }) - kept[i].pos) as usize } } else { kept[i] }),
//@afterloop 2
            proof {
                assert(self.segments@ =~= s0.all());
                lemma_clipped(s0.raw(), n);
                assert(forall|i: int| 0 <= i < self.segments.len() ==> (#[trigger] self.segments@[i]).pos < n && self.segments@[i].end() <= n);
                lemma_clipped_all(self.segments@, n);
                assert(self.raw() =~= self.segments@);
            }
//@tail `Ok`
        proof { self.lemma_raw(); assert(self.raw() =~= self.segments@); }
//@end
}

impl SegmentStream for GuidedSlicer {
    spec fn wf(&self) -> bool { self.base_ok() }
    spec fn rest(&self) -> Seq<u8> { self.src.rest() }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { self.src.avail() }
    spec fn known(&self) -> int { self.guide_consumed as int }
    spec fn limit(&self) -> int { self.max_consume as int }
    spec fn reach(&self) -> int { self.src.avail() }
    spec fn filled(&self) -> bool { self.src.filled() }
    spec fn full(&self) -> bool { true }
    spec fn ended(&self) -> bool { self.src.ended() }
    spec fn keeps(&self) -> bool { true }

//@fn src/segment/guided.rs SegmentStream for GuidedSlicer::fill_segment_buf
//@subst `self.segments.last().map_or(0, |x| std::cmp::max(x.tail(), x.pos + 1))` => `last_need(&self.segments)`
//@spec
//@tail `Ok`
        proof { self.lemma_all(); }
//@end
//@fn src/segment/guided.rs SegmentStream for GuidedSlicer::as_slices
//@subst `&self.segments[..self.guide_consumed]` => `slice_subrange(self.segments.as_slice(), 0, self.guide_consumed)`
//@spec
//@entry
        proof { self.lemma_all(); }
//@end
//@fn src/segment/guided.rs SegmentStream for GuidedSlicer::consume
//@spec
//@entry
        let ghost s0 = *self;
        let ghost b0 = bytes;
        proof { self.lemma_all(); }
//@beforeloop 1
        let ghost s1 = *self;
        proof {
            lemma_below_is(s0.segments@, bytes as int, from as int);
            assert(s1.segments@ =~= s0.segments@.skip(from as int));
        }
//@loop 1
    invariant
        self.src == s1.src, self.src_consumed == s1.src_consumed, self.max_consume == s1.max_consume, self.guide_consumed == s1.guide_consumed, self.guide == s1.guide,
        self.segments.len() == s1.segments.len(), it.iter.end == s1.segments.len(),
        forall|i: int| 0 <= i < s1.segments.len() ==> (#[trigger] s1.segments@[i]).pos >= bytes,
        forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (Segment { pos: (s1.segments@[i].pos - (if i < ix { bytes as int } else { 0 })) as usize, len: s1.segments@[i].len }),
//@afterloop 1
        let ghost b = bytes as int;
        proof {
            assert(self.segments@ =~= advance(s0.segments@, b));
        }
//@tail `Ok`
        proof {
            self.lemma_consumed(s0, b);
            lemma_below(s0.segments@, b);
            assert forall|i: int| 0 <= i < self.segments.len() implies (#[trigger] self.segments@[i]).pos == s0.segments@[i + from].pos - b && self.segments@[i].end() == s0.segments@[i + from].end() - b by {}
            assert(self.base_ok());
        }
//@end
}
