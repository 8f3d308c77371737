// ---- the gaps between the slices
// the furthest end of e and the slices
spec fn after(e: int, q: Seq<Segment>) -> int
    decreases q.len()
{
    if q.len() == 0 { e } else { let a = after(e, q.drop_last()); if a >= q.last().end() { a } else { q.last().end() } }
}
// the gaps in front of the slices, from e on
spec fn inner(e: int, q: Seq<Segment>) -> Seq<(int, int)>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else {
        let (a, p) = (after(e, q.drop_last()), inner(e, q.drop_last()));
        if a < q.last().pos { p.push((a, q.last().pos as int)) } else { p }
    }
}
// and the one after the last
spec fn outer(e: int, n: int) -> Seq<(int, int)> { if e < n { seq![(e, n)] } else { Seq::empty() } }
spec fn gaps(e: int, q: Seq<Segment>, n: int) -> Seq<(int, int)> { inner(e, q) + outer(after(e, q), n) }
// what --invert makes of the slices of a stream of n bytes: the images of all gaps, in order, ended at n
spec fn inverted(ms: Seq<SegmentMapper>, q: Seq<Segment>, n: int) -> Seq<Segment> { clipped(isort(images(ms, gaps(0, q, n))), n) }

proof fn lemma_after(e: int, q: Seq<Segment>, n: int)
    requires e <= n, ends_by(q, n)
    ensures e <= after(e, q) <= n, forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).end() <= after(e, q)
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).end() <= n by { assert(p[i] == q[i]); }
        lemma_after(e, p, n);
        assert(q[q.len() - 1].end() <= n);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).end() <= after(e, q) by { if i < p.len() { assert(p[i] == q[i]); } }
    }
}
proof fn lemma_gaps_add(e: int, a: Seq<Segment>, b: Seq<Segment>)
    ensures
        after(e, a + b) == after(after(e, a), b),
        inner(e, a + b) =~= inner(e, a) + inner(after(e, a), b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_gaps_add(e, a, b.drop_last()); }
}
// where the positions are counted from does not matter
proof fn lemma_gaps_shift(e: int, q: Seq<Segment>, b: int)
    requires from_on(q, b), 0 <= b
    ensures
        q.len() == 0 ==> after(e - b, shift(q, b)) == e - b,
        after(e - b, shift(q, b)) == after(e, q) - b,
        inner(e - b, shift(q, b)) =~= moved(inner(e, q), b),
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).pos >= b by { assert(p[i] == q[i]); }
        lemma_gaps_shift(e, p, b);
        assert(q[q.len() - 1].pos >= b);
        assert(shift(q, b).drop_last() =~= shift(p, b));
        assert(shift(q, b).last() == shift1(q.last(), b));
    }
}
proof fn lemma_gap_pairs(e: int, q: Seq<Segment>, n: int)
    requires ends_by(q, n), -MAXLEN <= e <= n <= MAXLEN
    ensures
        forall|i: int| 0 <= i < gaps(e, q, n).len() ==> pair_in(#[trigger] gaps(e, q, n)[i], e, e + 1),
        forall|i: int| 0 <= i < inner(e, q).len() ==> pair_in(#[trigger] inner(e, q)[i], e, e + 1),
    decreases q.len()
{
    lemma_after(e, q, n);
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).end() <= n by { assert(p[i] == q[i]); }
        lemma_gap_pairs(e, p, n);
        lemma_after(e, p, n);
        assert(q[q.len() - 1].end() <= n);
        let g = inner(e, q);
        assert forall|i: int| 0 <= i < g.len() implies pair_in(#[trigger] g[i], e, e + 1) by { if i < inner(e, p).len() { assert(g[i] == inner(e, p)[i]); } }
    }
    let (t, g) = (gaps(e, q, n), inner(e, q));
    assert forall|i: int| 0 <= i < t.len() implies pair_in(#[trigger] t[i], e, e + 1) by { if i < g.len() { assert(t[i] == g[i]); } }
}
spec fn in_gap(g: Seq<(int, int)>, p: int) -> bool { exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 <= p < g[i].1 }
spec fn in_slice(q: Seq<Segment>, p: int) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).pos <= p < q[i].end() }
// the gaps are what the slices do not cover
proof fn lemma_gap_cover(q: Seq<Segment>, p: int, n: int)
    requires inorder(q), ends_by(q, n), 0 <= p < n
    ensures in_gap(gaps(0, q, n), p) == !in_slice(q, p)
{
    lemma_inner_cover(q, p, n);
    lemma_after(0, q, n);
    let (g, h) = (inner(0, q), gaps(0, q, n));
    if in_gap(g, p) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 <= p < g[i].1; assert(h[i] == g[i]); }
    if in_gap(h, p) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 <= p < h[i].1; if i < g.len() { assert(g[i] == h[i]); } }
    if after(0, q) < n { assert(h[g.len() as int] == (after(0, q), n)); }
}
proof fn lemma_inner_cover(q: Seq<Segment>, p: int, n: int)
    requires inorder(q), ends_by(q, n), 0 <= p, 0 <= n
    ensures
        p < after(0, q) ==> in_gap(inner(0, q), p) == !in_slice(q, p),
        p >= after(0, q) ==> !in_gap(inner(0, q), p) && !in_slice(q, p),
    decreases q.len()
{
    if q.len() > 0 {
        let t = q.drop_last();
        let x = q[q.len() - 1];
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).end() <= n by { assert(t[i] == q[i]); }
        lemma_inorder_tail(q, q.len() - 1);
        assert(t =~= q.take(q.len() - 1));
        lemma_inner_cover(t, p, n);
        lemma_after(0, t, n);
        let (g, h) = (inner(0, t), inner(0, q));
        if in_gap(g, p) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 <= p < g[i].1; assert(h[i] == g[i]); }
        if in_slice(t, p) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).pos <= p < t[i].end(); assert(q[i] == t[i]); }
        if in_slice(q, p) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).pos <= p < q[i].end(); if i < t.len() { assert(t[i] == q[i]); } }
        if in_gap(h, p) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 <= p < h[i].1; if i < g.len() { assert(g[i] == h[i]); } }
        if after(0, t) < x.pos { assert(h[g.len() as int] == (after(0, t), x.pos as int)); }
        if x.pos <= p < x.end() && x.pos <= after(0, t) && p < after(0, t) && in_gap(g, p) {
            // a gap in front of a slice that begins at or before x
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).pos <= x.pos by { assert(q[i].pos <= q[q.len() - 1].pos); }
            lemma_inner_before(t, x.pos as int);
            let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 <= p < g[i].1;
            assert(g[i].1 <= x.pos);
        }
    }
}
proof fn lemma_inner_before(q: Seq<Segment>, l: int)
    requires forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).pos <= l
    ensures forall|i: int| 0 <= i < inner(0, q).len() ==> (#[trigger] inner(0, q)[i]).1 <= l
    decreases q.len()
{
    if q.len() > 0 {
        let t = q.drop_last();
        assert(q[q.len() - 1].pos <= l);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).pos <= l by { assert(q[i] == t[i]); }
        lemma_inner_before(t, l);
        let (g, h) = (inner(0, t), inner(0, q));
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).1 <= l by { if i < g.len() { assert(h[i] == g[i]); } }
    }
}
spec fn bound(ms: Seq<SegmentMapper>, e: int, lim: int) -> int { let b = zero_or(min_at(ms, e, e + 1)); if b <= lim { b } else { lim } }

//@closure src/segment/bridge.rs BridgeStream::update_max_consume 1
//@sig fn eval_phantom(phantom: &[isize; 2], m: &SegmentMapper) -> isize
//@subst `&phantom` => `phantom` *
//@subst `std::cmp::min` => `min_isize`
//@spec
    requires m.wf(), -MAXLEN <= phantom@[0] <= MAXLEN + 1, -MAXLEN <= phantom@[1] <= MAXLEN + 1
    ensures res == lowest(*m, phantom@[0] as int, phantom@[1] as int)
//@end
//@closure src/segment/bridge.rs BridgeStream::update_count 3
//@sig fn is_ready(is_eof: bool, max_consume: usize, bytes: usize, x: &Segment) -> bool
//@subst `self.max_consume` => `max_consume`
//@spec
    requires x.end() <= usize::MAX
    ensures res == (is_eof || (x.pos < max_consume && x.end() <= bytes))
//@end
//@closure src/segment/bridge.rs BridgeStream::extend_segment_buf 1
//@sig fn map_segment(tail: usize, m: &SegmentMapper, gap: &[isize; 2]) -> Option<Segment>
//@subst `(start.max(0) as usize).min(tail)` => `min_usize(max_isize(start, 0) as usize, tail)`
//@subst `(end.max(0) as usize).min(tail)` => `min_usize(max_isize(end, 0) as usize, tail)`
//@spec
    requires m.wf(), -MAXLEN <= gap@[0] <= MAXLEN, -MAXLEN <= gap@[1] <= MAXLEN
    ensures
        opt_seq(res) =~= clips(image(*m, (gap@[0] as int, gap@[1] as int)), tail as int),
        tail == usize::MAX ==> opt_seq(res) =~= image(*m, (gap@[0] as int, gap@[1] as int)),
//@entry
        proof { lemma_clips_one(image(*m, (gap@[0] as int, gap@[1] as int)), tail as int); }
//@end

//@struct src/segment/bridge.rs BridgeStream

impl BridgeStream {
    spec fn ms(&self) -> Seq<SegmentMapper> { self.mappers@ }
    spec fn ahead(&self) -> Seq<Segment> { self.src.segs().skip(self.src_scanned as int) }
    spec fn to_come(&self) -> Seq<Segment> { images(self.ms(), gaps(self.last_end as int, self.ahead(), self.size())) }
    spec fn size(&self) -> int { self.src.rest().len() as int }
    spec fn all(&self) -> Seq<Segment> { in_all(self.segments@, self.to_come(), self.size()) }
    spec fn low(&self) -> int { bound(self.ms(), self.last_end as int, self.src.limit()) }
    spec fn done(&self) -> bool { self.src.ended() && self.src_scanned == self.src.segs().len() && self.last_end == self.size() }
    spec fn base_ok(&self) -> bool {
        &&& segok(self.src)
        &&& self.src.full()
        &&& maps_ok(self.ms())
        &&& self.src_scanned == self.src.known()
        &&& from_on(self.ahead(), self.src.limit())
        &&& self.src.limit() <= self.src.avail()
        &&& self.size() - MAXLEN <= self.last_end <= self.size()
        &&& self.max_consume <= self.src.limit()
        &&& ends_by(self.segments@, MAXOFF + MAXLEN)
        &&& held(self.segments@, self.count as int, self.to_come(), self.max_consume as int, self.low(), self.src.avail(), self.size(), self.done())
    }
    proof fn lemma_all(&self)
        requires self.base_ok()
        ensures
            inorder(self.all()),
            within(self.all(), self.size()),
            self.count <= self.all().len(),
            self.all().take(self.count as int) =~= self.segments@.take(self.count as int),
            within(self.segments@.take(self.count as int), self.src.avail()),
            forall|i: int| self.count <= i < self.all().len() ==> (#[trigger] self.all()[i]).pos >= self.max_consume,
    {
        lemma_held(self.segments@, self.count as int, self.to_come(), self.max_consume as int, self.low(), self.src.avail(), self.size(), self.done());
    }

//@fn src/segment/bridge.rs BridgeStream::update_max_consume
//@dropstmt `let eval_phantom`
//@subst `self.mappers.iter().map(eval_phantom).min().unwrap_or(0)` => `min_of(&self.mappers, &phantom)`
//@subst `std::cmp::max(0, max_consume) as usize` => `max_isize(0, max_consume) as usize`
//@spec
    requires maps_ok(old(self).ms()), -MAXLEN <= old(self).last_end <= MAXLEN
    ensures
        *final(self) == (BridgeStream { max_consume: final(self).max_consume, ..*old(self) }),
        final(self).max_consume == (if is_eof { bytes as int } else { zero_or(min_at(old(self).ms(), old(self).last_end as int, old(self).last_end + 1)) }),
//@end
//@fn src/segment/bridge.rs BridgeStream::update_count
//@dropstmt `let is_ready`
//@subst `self.segments.retain(|x| x.pos < bytes);` => `retain_below(&mut self.segments, bytes);`
//@subst `self.segments.sort_by_key(|x| (x.pos, x.len));` => `sort_segments(&mut self.segments);`
//@subst `self.segments.iter().take_while(|x| is_ready(x)).count()` => `leading(&self.segments, is_eof, self.max_consume, bytes)`
//@subst `self.segments.get(self.count)` => `seg_at(&self.segments, self.count)`
//@spec
    requires ends_by(old(self).segments@, MAXOFF + MAXLEN)
    ensures
        *final(self) == (BridgeStream { max_consume: final(self).max_consume, segments: final(self).segments, count: final(self).count, ..*old(self) }),
        final(self).segments@ == isort(ended_at(old(self).segments@, is_eof, bytes as int)),
        ends_by(final(self).segments@, MAXOFF + MAXLEN),
        counted(final(self).segments@, is_eof, old(self).max_consume as int, bytes as int, final(self).count as int),
        final(self).max_consume == held_back(final(self).segments@, old(self).max_consume as int, final(self).count as int),
//@entry
        let ghost s0 = *self;
        let ghost q0 = self.segments@;
        let ghost n = bytes as int;
        proof { lemma_clips_filter(q0, n); }
//@beforeloop 1
            let ghost kept = self.segments@;
            proof {
                assert(kept == q0.filter(begins_below(n)));
                assert forall|i: int| 0 <= i < kept.len() implies (#[trigger] kept[i]).pos < n && kept[i].end() <= MAXOFF + MAXLEN by {
                    assert(q0.contains(q0.filter(begins_below(n))[i]));
                }
            }
            let ghost s2 = *self;
//@loop 1
            invariant
                *self == (BridgeStream { segments: self.segments, ..s2 }),
                self.segments.len() == kept.len(), it.iter.end == kept.len(),
                bytes == n,
                forall|i: int| 0 <= i < kept.len() ==> (#[trigger] kept[i]).pos < n && kept[i].end() <= MAXOFF + MAXLEN,
                forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (if i < ix { clip1(kept[i], n) } else { kept[i] }),
//@afterloop 1
            proof { assert(self.segments@ =~= clips(q0, n)); }
//@before `sort_segments`
        let ghost q1 = self.segments@;
        proof { assert(q1 == ended_at(q0, is_eof, n)); assert(ends_by(q1, MAXOFF + MAXLEN)); }
//@after `sort_segments(&mut self.segments);`
        proof {
            lemma_sorted_is(q1, self.segments@);
            lemma_isort_ends(q1, MAXOFF + MAXLEN);
        }
//@end
//@fn src/segment/bridge.rs BridgeStream::extend_segment_buf
//@dropstmt `let map_segment`
//@subst `map_segment(mapper,` => `map_segment(tail, mapper,` *
//@subst `for &next in &segments[self.src_scanned..count] {` => `let mut kk = self.src_scanned; while kk < count { let next = segments[kk]; kk += 1;`
//@subst `for mapper in &self.mappers {` => `for j in 0..self.mappers.len() { let mapper = &self.mappers[j];` *
//@subst `std::cmp::max(prev_end, curr_end)` => `max_isize(prev_end, curr_end)` *
//@spec
    requires
        segok(old(self).src), old(self).src.filled(),
        maps_ok(old(self).ms()),
        old(self).src_scanned <= count,
        count == old(self).src.known(),
        -MAXLEN <= old(self).last_end <= old(self).size(),
        is_eof ==> bytes == old(self).size(),
    ensures
        ({
            let (s0, s) = (*old(self), *final(self));
            let q = s0.src.segs().subrange(s0.src_scanned as int, count as int);
            let e = after(s0.last_end as int, q);
            let new = inner(s0.last_end as int, q) + (if is_eof { outer(e, s0.size()) } else { Seq::empty() });
            &&& s == (BridgeStream { segments: s.segments, src_scanned: count, last_end: s.last_end, ..s0 })
            &&& s.last_end == (if is_eof { s0.size() } else { e })
            &&& s.segments@ =~= s0.segments@ + ended_at(images(s0.ms(), new), is_eof, bytes as int)
        }),
//@entry
        let ghost s0 = *self;
        let ghost n = bytes as int;
        let ghost a = self.src_scanned as int;
        let ghost q = self.src.segs();
        let ghost ms = self.ms();
        let ghost le = self.last_end as int;
//@before `if count > self.src_scanned {`
        proof { assert(q.subrange(a, a) =~= Seq::<Segment>::empty()); assert(images(ms, inner(le, q.subrange(a, a))) =~= Seq::<Segment>::empty()); }
//@loop 1
            invariant
                *self == (BridgeStream { segments: self.segments, ..s0 }),
                ms == self.ms(), maps_ok(ms), segok(self.src), q == self.src.segs(), a == s0.src_scanned, n == bytes, le == s0.last_end,
                -MAXLEN <= le <= s0.size(),
                tail == (if is_eof { bytes } else { usize::MAX }),
                count <= q.len(), a <= kk <= count,
                segments@ == q.take(count as int),
                prev_end == after(le, q.subrange(a, kk as int)), le <= prev_end <= s0.size(),
                self.segments@ =~= s0.segments@ + ended_at(images(ms, inner(le, q.subrange(a, kk as int))), is_eof, n),
            decreases count - kk
//@loopstart 1
            let ghost k = kk as int;
            let ghost p = self.segments@;
            let ghost x = q[k as int];
            let ghost gap = (prev_end as int, x.pos as int);
            proof {
                assert(segments@[k as int] == x);
                assert(x.end() <= s0.size());
                assert(q.subrange(a, k + 1).drop_last() =~= q.subrange(a, k as int));
                assert(q.subrange(a, k + 1).last() == x);
                assert(inner(le, q.subrange(a, k as int)).push(gap).drop_last() =~= inner(le, q.subrange(a, k as int)));
                lemma_clips_add(images(ms, inner(le, q.subrange(a, k as int))), of_one(ms, gap), n);
                assert(ms.take(0) =~= Seq::<SegmentMapper>::empty());
                assert(of_one(ms.take(0), gap) =~= Seq::<Segment>::empty());
                assert(ms.take(ms.len() as int) =~= ms);
            }
//@loop 2
                invariant
                    *self == (BridgeStream { segments: self.segments, ..s0 }),
                    ms == self.ms(), maps_ok(ms), n == bytes,
                    tail == (if is_eof { bytes } else { usize::MAX }),
                    gap == (prev_end as int, curr_start as int), -MAXLEN <= gap.0 <= MAXLEN, -MAXLEN <= gap.1 <= MAXLEN,
                    self.segments@ =~= p + ended_at(of_one(ms.take(j as int), gap), is_eof, n),
//@loopstart 2
                let ghost p1 = self.segments@;
//@loopend 2
                proof {
                    assert(ms.take(j + 1).drop_last() =~= ms.take(j as int));
                    lemma_clips_add(of_one(ms.take(j as int), gap), image(*mapper, gap), n);
                    assert(self.segments@ =~= p1 + ended_at(image(*mapper, gap), is_eof, n));
                }
//@before `if is_eof && prev_end`
        let ghost s1 = *self;
        let ghost e1 = prev_end as int;
        let ghost done = inner(le, q.subrange(a, count as int));
        proof {
            assert(self.segments@ =~= s0.segments@ + ended_at(images(ms, done), is_eof, n));
            assert(e1 == after(le, q.subrange(a, count as int)));
            assert(done + Seq::<(int, int)>::empty() =~= done);
        }
//@before `for j in 0..self.mappers.len()` 2
            let ghost gap = (e1, n);
            proof {
                assert(bytes == n);
                assert(ms.take(0) =~= Seq::<SegmentMapper>::empty());
                assert(of_one(ms.take(0), gap) =~= Seq::<Segment>::empty());
                assert(ms.take(ms.len() as int) =~= ms);
            }
//@loop 3
                invariant
                    *self == (BridgeStream { segments: self.segments, ..s1 }),
                    ms == self.ms(), maps_ok(ms), is_eof, n == bytes,
                    tail == n,
                    gap == (prev_end as int, bytes as int), -MAXLEN <= gap.0 <= MAXLEN, -MAXLEN <= gap.1 <= MAXLEN,
                    self.segments@ =~= s1.segments@ + clips(of_one(ms.take(j as int), gap), n),
//@loopstart 3
                let ghost p1 = self.segments@;
//@loopend 3
                proof {
                    assert(ms.take(j + 1).drop_last() =~= ms.take(j as int));
                    lemma_clips_add(of_one(ms.take(j as int), gap), image(*mapper, gap), n);
                    assert(self.segments@ =~= p1 + clips(image(*mapper, gap), n));
                }
//@afterloop 3
            proof {
                let t = done + outer(e1, n);
                assert(outer(e1, n) =~= seq![gap]);
                assert(t.drop_last() =~= done);
                assert(t.last() == gap);
                lemma_clips_add(images(ms, done), of_one(ms, gap), n);
            }
//@end

//@fn src/segment/bridge.rs BridgeStream::new
//@subst `exprs.trim().is_empty()` => `blank_str(exprs)`
//@subst `let mut mappers = Vec::new();` => `let mut mappers: Vec<SegmentMapper> = Vec::new();`
//@subst `for expr in exprs.strip_suffix(',').unwrap_or(exprs).split(',') {` => `let parts = split_exprs(exprs); for k in 0..parts.len() { let expr = parts[k];`
//@subst `SegmentMapper::from_str(expr)?` => `parse_mapper(expr)?`
//@spec
    requires
        segok(src), src.full(), src.known() == 0, src.limit() == 0, 0 <= src.avail(),
    ensures
        res matches Ok(s) ==> {
            &&& s.wf()
            &&& s.rest() == src.rest()
            &&& s.known() == 0 && s.limit() == 0
            // the images by the mappers of the expression, one per piece
            &&& s.segs() =~= inverted(mappers_of(exprs@), src.segs(), src.rest().len() as int)
        }
//@loop 1
            invariant
                parts.len() == pieces(exprs@).len(), parts.len() > 0,
                mappers.len() == k,
                forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts@[i])@ == pieces(exprs@)[i],
                forall|i: int| 0 <= i < k ==> #[trigger] mappers@[i] == mappers_of(exprs@)[i] && mappers@[i].wf(),
//@tail `Ok`
        proof {
            if ret is Ok {
                let s = ret->Ok_0;
                assert(s.mappers@ =~= mappers_of(exprs@));
                assert(src.segs().skip(0) =~= src.segs());
                assert(s.segments@ + s.to_come() =~= images(mappers_of(exprs@), gaps(0, src.segs(), src.rest().len() as int)));
                assert(ends_by(src.segs(), src.rest().len() as int));
                lemma_gap_pairs(0, s.ahead(), s.size());
                lemma_images(s.ms(), gaps(0, s.ahead(), s.size()), 0, 1, 0);
                assert forall|i: int| 0 <= i < s.ahead().len() implies (#[trigger] s.ahead()[i]).pos >= 0 by {}
            }
        }
//@end
}

spec fn new_gaps(s0: BridgeStream, src: Box<dyn SegmentStream>, e: bool) -> Seq<(int, int)> {
    let q = src.segs().subrange(s0.src_scanned as int, src.known());
    let t = after(s0.last_end as int, q);
    inner(s0.last_end as int, q) + (if e { outer(t, s0.size()) } else { Seq::empty() })
}
proof fn lemma_new_gaps(s0: BridgeStream, src: Box<dyn SegmentStream>, e: bool, b: int)
    requires
        s0.base_ok(), segok(src), src.segs() == s0.src.segs(), s0.src_scanned <= src.known(),
        0 <= b <= zero_or(min_at(s0.ms(), s0.last_end as int, s0.last_end + 1)),
    ensures
        s0.last_end <= after(s0.last_end as int, src.segs().subrange(s0.src_scanned as int, src.known())) <= s0.size(),
        ends_by(images(s0.ms(), new_gaps(s0, src, e)), MAXOFF + MAXLEN),
        from_on(images(s0.ms(), new_gaps(s0, src, e)), b),
{
    let q = src.segs().subrange(s0.src_scanned as int, src.known());
    let le = s0.last_end as int;
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).end() <= s0.size() by { assert(q[i] == s0.src.segs()[i + s0.src_scanned]); }
    lemma_after(le, q, s0.size());
    lemma_gap_pairs(le, q, s0.size());
    let g = new_gaps(s0, src, e);
    assert forall|i: int| 0 <= i < g.len() implies pair_in(#[trigger] g[i], le, le + 1) by {
        if i < inner(le, q).len() { assert(g[i] == inner(le, q)[i]); } else { assert(g[i] == gaps(le, q, s0.size())[i]); }
    }
    lemma_images(s0.ms(), g, le, le + 1, b);
}
proof fn lemma_bridge_ends(s0: BridgeStream, src: Box<dyn SegmentStream>, s2: BridgeStream, e: bool)
    requires
        s0.base_ok(), segok(src), src.segs() == s0.src.segs(), s0.src_scanned <= src.known(),
        s2.src == src,
        s2.segments@ == s0.segments@ + ended_at(images(s0.ms(), new_gaps(s0, src, e)), e, src.avail()),
        0 <= src.avail() <= MAXLEN,
    ensures
        ends_by(s2.segments@, MAXOFF + MAXLEN),
        s0.last_end <= after(s0.last_end as int, src.segs().subrange(s0.src_scanned as int, src.known())) <= s0.size(),
{
    lemma_new_gaps(s0, src, e, 0);
    let g = images(s0.ms(), new_gaps(s0, src, e));
    lemma_clips_twice(g, src.avail());
    let t = ended_at(g, e, src.avail());
    assert forall|i: int| 0 <= i < s2.segments.len() implies (#[trigger] s2.segments@[i]).end() <= MAXOFF + MAXLEN by {
        if i < s0.segments.len() { assert(s2.segments@[i] == s0.segments@[i]); } else { assert(s2.segments@[i] == t[i - s0.segments.len()]); }
    }
}
// s0, all new gaps mapped and sorted and counted: s
proof fn lemma_bridge_fill(s0: BridgeStream, s: BridgeStream, e: bool)
    requires
        s0.base_ok(),
        segok(s.src), s.src.full(), s.src.segs() =~= s0.src.segs(), s0.src_scanned <= s.src.known(), s.src_scanned == s.src.known(),
        s0.src.limit() <= s.src.limit() <= s.src.avail() <= s.size(), s0.src.avail() <= s.src.avail(),
        from_on(s.src.segs().skip(s.src.known()), s.src.limit()),
        e ==> s.src.known() == s.src.segs().len() && s.src.limit() == s.src.avail() == s.size() && s.src.ended(),
        s0.size() == s.size(),
        s0.src.ended() ==> e,
        s.mappers == s0.mappers,
        s.last_end == (if e { s.size() } else { after(s0.last_end as int, s.src.segs().subrange(s0.src_scanned as int, s.src.known())) }),
        ends_by(s.segments@, MAXOFF + MAXLEN),
        s.segments@ == isort(ended_at(s0.segments@ + ended_at(images(s0.ms(), new_gaps(s0, s.src, e)), e, s.size()), e, s.size())),
        counted(s.segments@, e, if e { s.src.avail() } else { s.low() }, s.src.avail(), s.count as int),
        s.max_consume == held_back(s.segments@, if e { s.src.avail() } else { s.low() }, s.count as int),
    ensures
        s.base_ok(), s.all() =~= s0.all(), s0.max_consume <= s.max_consume, s0.count <= s.count, e ==> s.max_consume == s.src.avail() && s.count == s.all().len(),
{
    let (a, c) = (s0.src_scanned as int, s.src.known());
    let q = s.src.segs();
    let ms = s.ms();
    let n = s.size();
    let (le0, le) = (s0.last_end as int, s.last_end as int);
    let (qg, qr) = (q.subrange(a, c), q.skip(c));
    let t = after(le0, qg);
    let (gg, gr) = (new_gaps(s0, s.src, e), gaps(le, qr, n));
    let (g, rest) = (images(ms, gg), images(ms, gr));
    lemma_new_gaps(s0, s.src, e, 0);
    assert(s0.ahead() =~= qg + qr);
    lemma_gaps_add(le0, qg, qr);
    if e {
        assert(qr =~= Seq::<Segment>::empty());
        assert(gr =~= Seq::<(int, int)>::empty());
    }
    assert(gaps(le0, s0.ahead(), n) =~= gg + gr);
    lemma_images_add(ms, gg, gr);
    assert(s0.to_come() =~= g + rest);
    assert forall|i: int| 0 <= i < qr.len() implies (#[trigger] qr[i]).end() <= n by { assert(qr[i] == q[i + c]); }
    lemma_gap_pairs(le, qr, n);
    lemma_images(ms, gr, le, le + 1, s.low());
    lemma_min_at(ms, le0, le0 + 1, le - le0);
    lemma_held_fill(s0.segments@, s0.count as int, g, rest, s0.max_consume as int, s0.low(), s0.src.avail(), n, s0.done(),
        s.segments@, s.count as int, s.max_consume as int, s.low(), s.src.avail(), e);
    if !e && s.done() { assert(qr =~= Seq::<Segment>::empty()); assert(gr =~= Seq::<(int, int)>::empty()); assert(rest =~= Seq::<Segment>::empty()); }
}
proof fn lemma_bridge_consume(s0: BridgeStream, s: BridgeStream, b: int)
    requires
        s0.base_ok(), 0 <= b <= s0.max_consume,
        segok(s.src), s.src.full(), s.src.rest() =~= s0.src.rest().skip(b), s.src.segs() =~= advance(s0.src.segs(), b),
        s.src.known() == s0.src.known() - below(s0.src.segs(), b), s.src_scanned == s.src.known(),
        s.src.limit() == s0.src.limit() - b, s.src.avail() >= s0.src.avail() - b, s0.src.ended() ==> s.src.ended(),
        s.mappers == s0.mappers, s.max_consume == s0.max_consume - b, s.segments@ == advance(s0.segments@, b),
        s.count == s0.count - below(s0.segments@, b),
        s.last_end == s0.last_end - b,
    ensures
        s.base_ok(),
        0 <= below(s0.segments@, b) <= s0.count,
        below(s0.all(), b) == below(s0.segments@, b),
        s.all() =~= advance(s0.all(), b),
{
    let q0 = s0.segments@;
    let k = below(q0, b);
    let ms = s0.ms();
    lemma_weak_inorder(q0);
    lemma_below(q0, b);
    // the slices of the source that are not mapped
    let src = s0.src.segs();
    let (c, n, le) = (s0.src_scanned as int, s0.size(), s0.last_end as int);
    let lim = s0.src.limit();
    lemma_below(src, b);
    let kc = below(src, b);
    assert(s.ahead() =~= shift(s0.ahead(), b));
    assert forall|i: int| 0 <= i < s0.ahead().len() implies (#[trigger] s0.ahead()[i]).end() <= n && s0.ahead()[i].pos >= lim by { assert(s0.ahead()[i] == src[i + c]); }
    assert forall|i: int| 0 <= i < s.ahead().len() implies (#[trigger] s.ahead()[i]).end() <= n - b && s.ahead()[i].pos >= lim - b by { assert(s0.ahead()[i].pos >= lim); }
    lemma_gaps_shift(le, s0.ahead(), b);
    let (g0, g) = (gaps(le, s0.ahead(), n), gaps(le - b, s.ahead(), n - b));
    assert(g =~= moved(g0, b));
    lemma_gap_pairs(le, s0.ahead(), n);
    lemma_gap_pairs(le - b, s.ahead(), n - b);
    lemma_min_at(ms, le, le + 1, -b);
    if s0.done() {
        assert(g0 =~= Seq::<(int, int)>::empty());
        assert(s.to_come() =~= shift(s0.to_come(), b));
        assert(s.done());
    } else {
        lemma_images(ms, g0, le, le + 1, b);
        assert(s.to_come() =~= shift(s0.to_come(), b));
        lemma_images(ms, g, le - b, le - b + 1, s.low());
    }
    lemma_held_consume(q0, s0.count as int, s0.to_come(), s0.max_consume as int, s0.low(), s0.src.avail(), s0.size(), s0.done(), b, s.low(), s.src.avail());
    assert forall|i: int| 0 <= i < s.segments.len() implies (#[trigger] s.segments@[i]).end() <= MAXOFF + MAXLEN by { assert(q0[i + k].pos >= b && q0[i + k].end() <= MAXOFF + MAXLEN); }
}

impl SegmentStream for BridgeStream {
    spec fn wf(&self) -> bool { self.base_ok() }
    spec fn rest(&self) -> Seq<u8> { self.src.rest() }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { self.src.avail() }
    spec fn known(&self) -> int { self.count as int }
    spec fn limit(&self) -> int { self.max_consume as int }
    spec fn reach(&self) -> int { self.src.avail() }
    spec fn filled(&self) -> bool { self.src.filled() }
    spec fn full(&self) -> bool { true }
    spec fn ended(&self) -> bool { self.src.ended() }
    spec fn keeps(&self) -> bool { true }

//@fn src/segment/bridge.rs SegmentStream for BridgeStream::fill_segment_buf
//@spec
//@entry
        let ghost s0 = *self;
        proof { s0.lemma_all(); }
//@after `self.src.fill_segment_buf()?;`
        let ghost s1 = *self;
        proof { lemma_segok_fill(s0.src, s1.src, is_eof, bytes as int, count as int); }
//@after `self.extend_segment_buf(is_eof, count, bytes);`
        let ghost s2 = *self;
        proof { lemma_bridge_ends(s0, s1.src, s2, is_eof); }
//@before `self.update_count`
        let ghost s3 = *self;
//@tail `Ok`
        proof { lemma_bridge_fill(s0, *self, is_eof); self.lemma_all(); }
//@end
//@fn src/segment/bridge.rs SegmentStream for BridgeStream::as_slices
//@subst `&self.segments[..self.count]` => `slice_subrange(self.segments.as_slice(), 0, self.count)`
//@spec
//@entry
        proof { self.lemma_all(); }
//@end
//@fn src/segment/bridge.rs SegmentStream for BridgeStream::consume
//@spec
//@entry
        let ghost s0 = *self;
        proof { s0.lemma_all(); lemma_weak_inorder(s0.segments@); }
//@before `let to =`
        proof {
            assert(forall|i: int| 0 <= i < from ==> (#[trigger] s0.segments@[i]).pos < bytes);
            lemma_below_is(s0.segments@, bytes as int, from as int);
            if from > s0.count { assert(s0.segments@[s0.count as int].pos < bytes); }
        }
//@beforeloop 1
        let ghost s1 = *self;
        proof {
            assert(s1.segments@ =~= s0.segments@.skip(from as int));
        }
//@loop 1
    invariant
        *self == (BridgeStream { segments: self.segments, ..s1 }),
        self.segments.len() == s1.segments.len(), it.iter.end == s1.segments.len(),
        forall|i: int| 0 <= i < s1.segments.len() ==> (#[trigger] s1.segments@[i]).pos >= bytes,
        forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (Segment { pos: (s1.segments@[i].pos - (if i < ix { bytes as int } else { 0 })) as usize, len: s1.segments@[i].len }),
//@afterloop 1
        let ghost b = bytes as int;
        proof { assert(self.segments@ =~= advance(s0.segments@, b)); }
//@tail `Ok`
        proof {
            lemma_segok_consume(s0.src, self.src, b, src_count as int);
            lemma_bridge_consume(s0, *self, b);
        }
//@end
}
