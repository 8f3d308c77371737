// ---- slices mapped one by one
spec fn ends(q: Seq<Segment>) -> Seq<(int, int)> { Seq::new(q.len(), |i: int| (q[i].pos as int, q[i].end())) }
// what --extend makes of the slices of a stream of n bytes: all images, in order, ended at n
spec fn extended(ms: Seq<SegmentMapper>, q: Seq<Segment>, n: int) -> Seq<Segment> { clipped(isort(images(ms, ends(q))), n) }
// no image of a slice that begins at lim or later begins before this
spec fn bound(ms: Seq<SegmentMapper>, lim: int) -> int { let b = zero_or(min_at(ms, lim, lim)); if b <= lim { b } else { lim } }

//@closure src/segment/extend.rs ExtendStream::update_max_consume 1
//@sig fn eval_phantom(phantom: &[isize; 2], m: &SegmentMapper) -> isize
//@subst `&phantom` => `phantom` *
//@subst `std::cmp::min` => `min_isize`
//@spec
    requires m.wf(), -MAXLEN <= phantom@[0] <= MAXLEN + 1, -MAXLEN <= phantom@[1] <= MAXLEN + 1
    ensures res == lowest(*m, phantom@[0] as int, phantom@[1] as int)
//@end
//@closure src/segment/extend.rs ExtendStream::update_count 3
//@sig fn is_ready(is_eof: bool, max_consume: usize, bytes: usize, x: &Segment) -> bool
//@subst `self.max_consume` => `max_consume`
//@spec
    requires x.end() <= usize::MAX
    ensures res == (is_eof || (x.pos < max_consume && x.end() <= bytes))
//@end
//@closure src/segment/extend.rs ExtendStream::extend_segment_buf 1
//@sig fn map_segment(tail: usize, m: &SegmentMapper, segment: &Segment) -> Option<Segment>
//@subst `(start.max(0) as usize).min(tail)` => `min_usize(max_isize(start, 0) as usize, tail)`
//@subst `(end.max(0) as usize).min(tail)` => `min_usize(max_isize(end, 0) as usize, tail)`
//@spec
    requires m.wf(), segment.end() <= MAXLEN
    ensures
        opt_seq(res) =~= clips(image(*m, (segment.pos as int, segment.end())), tail as int),
        tail == usize::MAX ==> opt_seq(res) =~= image(*m, (segment.pos as int, segment.end())),
//@entry
        proof { lemma_clips_one(image(*m, (segment.pos as int, segment.end())), tail as int); }
//@end

//@struct src/segment/extend.rs ExtendStream

impl ExtendStream {
    spec fn ms(&self) -> Seq<SegmentMapper> { self.mappers@ }
    spec fn ahead(&self) -> Seq<Segment> { self.src.segs().skip(self.src_scanned as int) }
    spec fn to_come(&self) -> Seq<Segment> { images(self.ms(), ends(self.ahead())) }
    spec fn size(&self) -> int { self.src.rest().len() as int }
    spec fn all(&self) -> Seq<Segment> { in_all(self.segments@, self.to_come(), self.size()) }
    spec fn low(&self) -> int { bound(self.ms(), self.src.limit()) }
    spec fn done(&self) -> bool { self.src.ended() && self.src_scanned == self.src.segs().len() }
    spec fn base_ok(&self) -> bool {
        &&& segok(self.src)
        &&& self.src.full()
        &&& maps_ok(self.ms())
        &&& self.src_scanned == self.src.known()
        &&& from_on(self.ahead(), self.src.limit())
        &&& self.src.limit() <= self.src.avail()
        &&& self.max_consume <= self.src.limit()
        &&& ends_by(self.segments@, MAXOFF + MAXLEN)
        &&& held(self.segments@, self.count as int, self.to_come(), self.max_consume as int, self.low(), self.src.avail(), self.size(), self.done())
    }
    proof fn lemma_all(&self)
        requires self.base_ok()
        ensures
            inorder(self.all()),
            within(self.all(), self.size()),
            self.count <= self.all().len(),
            self.all().take(self.count as int) =~= self.segments@.take(self.count as int),
            within(self.segments@.take(self.count as int), self.src.avail()),
            forall|i: int| self.count <= i < self.all().len() ==> (#[trigger] self.all()[i]).pos >= self.max_consume,
    {
        lemma_held(self.segments@, self.count as int, self.to_come(), self.max_consume as int, self.low(), self.src.avail(), self.size(), self.done());
    }

//@fn src/segment/extend.rs ExtendStream::update_max_consume
//@dropstmt `let eval_phantom`
//@subst `self.mappers.iter().map(eval_phantom).min().unwrap_or(0)` => `min_of(&self.mappers, &phantom)`
//@subst `std::cmp::max(0, max_consume) as usize` => `max_isize(0, max_consume) as usize`
//@spec
    requires maps_ok(old(self).ms()), max_consume <= MAXLEN
    ensures
        *final(self) == (ExtendStream { max_consume: final(self).max_consume, ..*old(self) }),
        final(self).max_consume == (if is_eof { bytes as int } else { zero_or(min_at(old(self).ms(), max_consume as int, max_consume as int)) }),
//@end
//@fn src/segment/extend.rs ExtendStream::update_count
//@dropstmt `let is_ready`
//@subst `self.segments.retain(|x| x.pos < bytes);` => `retain_below(&mut self.segments, bytes);`
//@subst `self.segments.sort_by_key(|x| (x.pos, x.len));` => `sort_segments(&mut self.segments);`
//@subst `self.segments.iter().take_while(|x| is_ready(x)).count()` => `leading(&self.segments, is_eof, self.max_consume, bytes)`
//@subst `self.segments.get(self.count)` => `seg_at(&self.segments, self.count)`
//@spec
    requires ends_by(old(self).segments@, MAXOFF + MAXLEN)
    ensures
        *final(self) == (ExtendStream { max_consume: final(self).max_consume, segments: final(self).segments, count: final(self).count, ..*old(self) }),
        final(self).segments@ == isort(ended_at(old(self).segments@, is_eof, bytes as int)),
        ends_by(final(self).segments@, MAXOFF + MAXLEN),
        counted(final(self).segments@, is_eof, old(self).max_consume as int, bytes as int, final(self).count as int),
        final(self).max_consume == held_back(final(self).segments@, old(self).max_consume as int, final(self).count as int),
//@entry
        let ghost s0 = *self;
        let ghost q0 = self.segments@;
        let ghost n = bytes as int;
        proof { lemma_clips_filter(q0, n); }
//@beforeloop 1
            let ghost kept = self.segments@;
            proof {
                assert(kept == q0.filter(begins_below(n)));
                assert forall|i: int| 0 <= i < kept.len() implies (#[trigger] kept[i]).pos < n && kept[i].end() <= MAXOFF + MAXLEN by {
                    assert(q0.contains(q0.filter(begins_below(n))[i]));
                }
            }
            let ghost s2 = *self;
//@loop 1
            invariant
                *self == (ExtendStream { segments: self.segments, ..s2 }),
                self.segments.len() == kept.len(), it.iter.end == kept.len(),
                bytes == n,
                forall|i: int| 0 <= i < kept.len() ==> (#[trigger] kept[i]).pos < n && kept[i].end() <= MAXOFF + MAXLEN,
                forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (if i < ix { clip1(kept[i], n) } else { kept[i] }),
//@afterloop 1
            proof { assert(self.segments@ =~= clips(q0, n)); }
//@before `sort_segments`
        let ghost q1 = self.segments@;
        proof { assert(q1 == ended_at(q0, is_eof, n)); assert(ends_by(q1, MAXOFF + MAXLEN)); }
//@after `sort_segments(&mut self.segments);`
        proof {
            lemma_sorted_is(q1, self.segments@);
            lemma_isort_ends(q1, MAXOFF + MAXLEN);
        }
//@end
//@fn src/segment/extend.rs ExtendStream::extend_segment_buf
//@dropstmt `let map_segment`
//@subst `map_segment(mapper, next)` => `map_segment(tail, mapper, next)`
//@subst `for next in &segments[self.src_scanned..count] {` => `for k in self.src_scanned..count { let next = &segments[k];`
//@subst `for mapper in &self.mappers {` => `for j in 0..self.mappers.len() { let mapper = &self.mappers[j];`
//@spec
    requires
        segok(old(self).src), old(self).src.filled(),
        maps_ok(old(self).ms()),
        old(self).src_scanned <= count,
        count == old(self).src.known(),
        is_eof ==> bytes <= MAXLEN,
    ensures
        *final(self) == (ExtendStream { segments: final(self).segments, src_scanned: count, ..*old(self) }),
        final(self).segments@ =~= old(self).segments@ + ended_at(images(old(self).ms(), ends(old(self).src.segs().subrange(old(self).src_scanned as int, count as int))), is_eof, bytes as int),
//@entry
        let ghost s0 = *self;
        let ghost n = bytes as int;
        let ghost a = self.src_scanned as int;
        let ghost q = self.src.segs();
        let ghost ms = self.ms();
//@loop 1
            invariant
                *self == (ExtendStream { segments: self.segments, ..s0 }),
                ms == self.ms(), maps_ok(ms), segok(self.src), q == self.src.segs(), a == s0.src_scanned, n == bytes,
                tail == (if is_eof { bytes } else { usize::MAX }),
                count <= q.len(), a <= count,
                segments@ == q.take(count as int),
                self.segments@ =~= s0.segments@ + ended_at(images(ms, ends(q.subrange(a, k as int))), is_eof, n),
//@beforeloop 2
            let ghost p = self.segments@;
            proof { assert(*next == q[k as int]); assert(ms.take(0) =~= Seq::<SegmentMapper>::empty()); assert(of_one(ms.take(0), (next.pos as int, next.end())) =~= Seq::<Segment>::empty()); }
//@loop 2
                invariant
                    *self == (ExtendStream { segments: self.segments, ..s0 }),
                    ms == self.ms(), maps_ok(ms), n == bytes,
                    tail == (if is_eof { bytes } else { usize::MAX }),
                    next.end() <= MAXLEN,
                    self.segments@ =~= p + ended_at(of_one(ms.take(j as int), (next.pos as int, next.end())), is_eof, n),
//@loopstart 2
                let ghost p1 = self.segments@;
//@loopend 2
                proof {
                    assert(ms.take(j + 1).drop_last() =~= ms.take(j as int));
                    lemma_clips_add(of_one(ms.take(j as int), (next.pos as int, next.end())), image(*mapper, (next.pos as int, next.end())), n);
                    assert(self.segments@ =~= p1 + ended_at(image(*mapper, (next.pos as int, next.end())), is_eof, n));
                }
//@afterloop 2
            proof {
                assert(ms.take(ms.len() as int) =~= ms);
                assert(ends(q.subrange(a, k + 1)).drop_last() =~= ends(q.subrange(a, k as int)));
                lemma_clips_add(images(ms, ends(q.subrange(a, k as int))), of_one(ms, (next.pos as int, next.end())), n);
            }
//@end

//@fn src/segment/extend.rs ExtendStream::new
//@subst `exprs.trim().is_empty()` => `blank_str(exprs)`
//@subst `let mut mappers = Vec::new();` => `let mut mappers: Vec<SegmentMapper> = Vec::new();`
//@subst `for expr in exprs.strip_suffix(',').unwrap_or(exprs).split(',') {` => `let parts = split_exprs(exprs); for k in 0..parts.len() { let expr = parts[k];`
//@subst `SegmentMapper::from_str(expr)?` => `parse_mapper(expr)?`
//@spec
    requires
        segok(src), src.full(), src.known() == 0, src.limit() == 0, 0 <= src.avail(),
    ensures
        res matches Ok(s) ==> {
            &&& s.wf()
            &&& s.rest() == src.rest()
            &&& s.known() == 0 && s.limit() == 0
            // the images by the mappers of the expression, one per piece
            &&& s.segs() =~= extended(mappers_of(exprs@), src.segs(), src.rest().len() as int)
        }
//@loop 1
            invariant
                parts.len() == pieces(exprs@).len(), parts.len() > 0,
                mappers.len() == k,
                forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts@[i])@ == pieces(exprs@)[i],
                forall|i: int| 0 <= i < k ==> #[trigger] mappers@[i] == mappers_of(exprs@)[i] && mappers@[i].wf(),
//@tail `Ok`
        proof {
            if ret is Ok {
                let s = ret->Ok_0;
                assert(s.mappers@ =~= mappers_of(exprs@));
                assert(src.segs().skip(0) =~= src.segs());
                assert(s.segments@ + s.to_come() =~= images(mappers_of(exprs@), ends(src.segs())));
                lemma_pairs(s.ahead(), 0);
                lemma_images(s.ms(), ends(s.ahead()), 0, 0, 0);
                assert forall|i: int| 0 <= i < s.ahead().len() implies (#[trigger] s.ahead()[i]).pos >= 0 by {}
            }
        }
//@end
}

proof fn lemma_pairs(q: Seq<Segment>, lim: int)
    requires from_on(q, lim), ends_by(q, MAXLEN), 0 <= lim
    ensures forall|i: int| 0 <= i < q.len() ==> pair_in(#[trigger] ends(q)[i], lim, lim)
{
    assert forall|i: int| 0 <= i < q.len() implies pair_in(#[trigger] ends(q)[i], lim, lim) by { assert(q[i].pos >= lim && q[i].end() <= MAXLEN); }
}
proof fn lemma_extend_ends(s0: ExtendStream, src: Box<dyn SegmentStream>, s2: ExtendStream, e: bool)
    requires
        s0.base_ok(), segok(src), src.segs() == s0.src.segs(), s0.src_scanned <= src.known(),
        s2.src == src,
        s2.segments@ == s0.segments@ + ended_at(images(s0.ms(), ends(src.segs().subrange(s0.src_scanned as int, src.known()))), e, src.avail()),
        0 <= src.avail() <= MAXLEN,
    ensures
        ends_by(s2.segments@, MAXOFF + MAXLEN),
{
    let q = src.segs().subrange(s0.src_scanned as int, src.known());
    let g = images(s0.ms(), ends(q));
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).pos >= s0.src.limit() && q[i].end() <= MAXLEN by { assert(q[i] == s0.ahead()[i]); assert(q[i] == src.segs()[i + s0.src_scanned]); }
    lemma_pairs(q, s0.src.limit());
    lemma_images(s0.ms(), ends(q), s0.src.limit(), s0.src.limit(), 0);
    lemma_clips_twice(g, src.avail());
    let t = ended_at(g, e, src.avail());
    assert forall|i: int| 0 <= i < s2.segments.len() implies (#[trigger] s2.segments@[i]).end() <= MAXOFF + MAXLEN by {
        if i < s0.segments.len() { assert(s2.segments@[i] == s0.segments@[i]); } else { assert(s2.segments@[i] == t[i - s0.segments.len()]); }
    }
}
// s0, all new slices mapped and sorted and counted: s
proof fn lemma_extend_fill(s0: ExtendStream, s: ExtendStream, e: bool)
    requires
        s0.base_ok(),
        segok(s.src), s.src.full(), s.src.segs() =~= s0.src.segs(), s0.src_scanned <= s.src.known(), s.src_scanned == s.src.known(),
        s0.src.limit() <= s.src.limit() <= s.src.avail() <= s.size(), s0.src.avail() <= s.src.avail(),
        from_on(s.src.segs().skip(s.src.known()), s.src.limit()),
        e ==> s.src.known() == s.src.segs().len() && s.src.limit() == s.src.avail() == s.size() && s.src.ended(),
        s0.size() == s.size(),
        s0.src.ended() ==> e,
        s.mappers == s0.mappers,
        ends_by(s.segments@, MAXOFF + MAXLEN),
        s.segments@ == isort(ended_at(s0.segments@ + ended_at(images(s0.ms(), ends(s.src.segs().subrange(s0.src_scanned as int, s.src.known()))), e, s.size()), e, s.size())),
        counted(s.segments@, e, if e { s.src.avail() } else { s.low() }, s.src.avail(), s.count as int),
        s.max_consume == held_back(s.segments@, if e { s.src.avail() } else { s.low() }, s.count as int),
    ensures
        s.base_ok(), s.all() =~= s0.all(), s0.max_consume <= s.max_consume, s0.count <= s.count, e ==> s.max_consume == s.src.avail() && s.count == s.all().len(),
{
    let (a, c) = (s0.src_scanned as int, s.src.known());
    let q = s.src.segs();
    let ms = s.ms();
    let (qg, qr) = (q.subrange(a, c), q.skip(c));
    let (g, rest) = (images(ms, ends(qg)), images(ms, ends(qr)));
    assert(s0.ahead() =~= qg + qr);
    assert(ends(s0.ahead()) =~= ends(qg) + ends(qr));
    lemma_images_add(ms, ends(qg), ends(qr));
    assert(s0.to_come() =~= g + rest);
    assert forall|i: int| 0 <= i < qr.len() implies (#[trigger] qr[i]).end() <= MAXLEN by { assert(qr[i] == q[i + c]); }
    lemma_pairs(qr, s.src.limit());
    lemma_images(ms, ends(qr), s.src.limit(), s.src.limit(), s.low());
    lemma_min_at(ms, s0.src.limit(), s0.src.limit(), s.src.limit() - s0.src.limit());
    lemma_held_fill(s0.segments@, s0.count as int, g, rest, s0.max_consume as int, s0.low(), s0.src.avail(), s.size(), s0.done(),
        s.segments@, s.count as int, s.max_consume as int, s.low(), s.src.avail(), e);
    if !e && s.done() { assert(ends(qr) =~= Seq::<(int, int)>::empty()); assert(rest =~= Seq::<Segment>::empty()); }
}
proof fn lemma_extend_consume(s0: ExtendStream, s: ExtendStream, b: int)
    requires
        s0.base_ok(), 0 <= b <= s0.max_consume,
        segok(s.src), s.src.full(), s.src.rest() =~= s0.src.rest().skip(b), s.src.segs() =~= advance(s0.src.segs(), b),
        s.src.known() == s0.src.known() - below(s0.src.segs(), b), s.src_scanned == s.src.known(),
        s.src.limit() == s0.src.limit() - b, s.src.avail() >= s0.src.avail() - b, s0.src.ended() ==> s.src.ended(),
        s.mappers == s0.mappers, s.max_consume == s0.max_consume - b, s.segments@ == advance(s0.segments@, b),
        s.count == s0.count - below(s0.segments@, b),
    ensures
        s.base_ok(),
        0 <= below(s0.segments@, b) <= s0.count,
        below(s0.all(), b) == below(s0.segments@, b),
        s.all() =~= advance(s0.all(), b),
{
    let q0 = s0.segments@;
    let k = below(q0, b);
    lemma_weak_inorder(q0);
    lemma_below(q0, b);
    // the slices of the source that are not mapped
    let src = s0.src.segs();
    let c = s0.src_scanned as int;
    let lim = s0.src.limit();
    lemma_below(src, b);
    let kc = below(src, b);
    assert(s.ahead() =~= shift(s0.ahead(), b));
    assert forall|i: int| 0 <= i < s0.ahead().len() implies (#[trigger] s0.ahead()[i]).end() <= MAXLEN && s0.ahead()[i].pos >= lim by { assert(s0.ahead()[i] == src[i + c]); }
    assert(ends(s.ahead()) =~= moved(ends(s0.ahead()), b));
    lemma_pairs(s0.ahead(), lim);
    lemma_min_at(s0.ms(), lim, lim, -b);
    if s0.done() {
        assert(ends(s0.ahead()) =~= Seq::<(int, int)>::empty());
        assert(ends(s.ahead()) =~= Seq::<(int, int)>::empty());
        assert(s.to_come() =~= shift(s0.to_come(), b));
        assert(s.done());
    } else {
        lemma_images(s0.ms(), ends(s0.ahead()), lim, lim, b);
        assert(s.to_come() =~= shift(s0.to_come(), b));
        lemma_pairs(s.ahead(), lim - b);
        lemma_images(s0.ms(), ends(s.ahead()), lim - b, lim - b, s.low());
    }
    lemma_held_consume(q0, s0.count as int, s0.to_come(), s0.max_consume as int, s0.low(), s0.src.avail(), s0.size(), s0.done(), b, s.low(), s.src.avail());
    assert forall|i: int| 0 <= i < s.segments.len() implies (#[trigger] s.segments@[i]).end() <= MAXOFF + MAXLEN by { assert(q0[i + k].pos >= b && q0[i + k].end() <= MAXOFF + MAXLEN); }
    if s.done() { assert(ends(s.ahead()) =~= Seq::<(int, int)>::empty()); }
}

impl SegmentStream for ExtendStream {
    spec fn wf(&self) -> bool { self.base_ok() }
    spec fn rest(&self) -> Seq<u8> { self.src.rest() }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { self.src.avail() }
    spec fn known(&self) -> int { self.count as int }
    spec fn limit(&self) -> int { self.max_consume as int }
    spec fn reach(&self) -> int { self.src.avail() }
    spec fn filled(&self) -> bool { self.src.filled() }
    spec fn full(&self) -> bool { true }
    spec fn ended(&self) -> bool { self.src.ended() }
    spec fn keeps(&self) -> bool { true }

//@fn src/segment/extend.rs SegmentStream for ExtendStream::fill_segment_buf
//@spec
//@entry
        let ghost s0 = *self;
        proof { s0.lemma_all(); }
//@after `self.src.fill_segment_buf()?;`
        let ghost s1 = *self;
        proof { lemma_segok_fill(s0.src, s1.src, is_eof, bytes as int, count as int); }
//@after `self.extend_segment_buf(is_eof, count, bytes);`
        let ghost s2 = *self;
        proof { lemma_extend_ends(s0, s1.src, s2, is_eof); }
//@before `self.update_count`
        let ghost s3 = *self;
//@tail `Ok`
        proof { lemma_extend_fill(s0, *self, is_eof); self.lemma_all(); }
//@end
//@fn src/segment/extend.rs SegmentStream for ExtendStream::as_slices
//@subst `&self.segments[..self.count]` => `slice_subrange(self.segments.as_slice(), 0, self.count)`
//@spec
//@entry
        proof { self.lemma_all(); }
//@end
//@fn src/segment/extend.rs SegmentStream for ExtendStream::consume
//@spec
//@entry
        let ghost s0 = *self;
        proof { s0.lemma_all(); lemma_weak_inorder(s0.segments@); }
//@before `let to =`
        proof {
            assert(forall|i: int| 0 <= i < from ==> (#[trigger] s0.segments@[i]).pos < bytes);
            lemma_below_is(s0.segments@, bytes as int, from as int);
            if from > s0.count { assert(s0.segments@[s0.count as int].pos < bytes); }
        }
//@beforeloop 1
        let ghost s1 = *self;
        proof {
            assert(s1.segments@ =~= s0.segments@.skip(from as int));
        }
//@loop 1
    invariant
        *self == (ExtendStream { segments: self.segments, ..s1 }),
        self.segments.len() == s1.segments.len(), it.iter.end == s1.segments.len(),
        forall|i: int| 0 <= i < s1.segments.len() ==> (#[trigger] s1.segments@[i]).pos >= bytes,
        forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (Segment { pos: (s1.segments@[i].pos - (if i < ix { bytes as int } else { 0 })) as usize, len: s1.segments@[i].len }),
//@afterloop 1
        let ghost b = bytes as int;
        proof { assert(self.segments@ =~= advance(s0.segments@, b)); }
//@tail `Ok`
        proof {
            lemma_segok_consume(s0.src, self.src, b, src_count as int);
            lemma_extend_consume(s0, *self, b);
        }
//@end
}
