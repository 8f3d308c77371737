//@struct src/segment/merge.rs Accumulator

// joins what begins at most thr bytes after the furthest end so far; `pile` is the slice that is not closed yet
spec fn merged(pile: Option<(int, int)>, segs: Seq<Segment>, thr: int) -> Seq<Segment>
    decreases segs.len()
{
    if segs.len() == 0 {
        match pile { None => Seq::empty(), Some((s, e)) => seq![Segment { pos: s as usize, len: (e - s) as usize }] }
    } else {
        let x = segs[0];
        match pile {
            None => merged(Some((x.pos as int, x.end())), segs.skip(1), thr),
            Some((s, e)) =>
                if e > x.pos || x.pos - e <= thr { merged(Some((s, if e >= x.end() { e } else { x.end() })), segs.skip(1), thr) }
                else { seq![Segment { pos: s as usize, len: (e - s) as usize }] + merged(Some((x.pos as int, x.end())), segs.skip(1), thr) },
        }
    }
}

// the pile in a stream of slices that begin at or after it
spec fn pile_ok(pile: Option<(int, int)>, segs: Seq<Segment>, n: int) -> bool {
    &&& n <= MAXLEN
    &&& inorder(segs)
    &&& within(segs, n)
    &&& pile matches Some((s, e)) ==> 0 <= s <= e <= n && (segs.len() > 0 ==> s <= segs[0].pos)
}
proof fn lemma_pile_step(pile: Option<(int, int)>, segs: Seq<Segment>, n: int)
    requires pile_ok(pile, segs, n), segs.len() > 0
    ensures
        pile_ok(Some((segs[0].pos as int, segs[0].end())), segs.skip(1), n),
        pile matches Some((s, e)) ==> pile_ok(Some((s, if e >= segs[0].end() { e } else { segs[0].end() })), segs.skip(1), n),
{
    lemma_inorder_tail(segs, 1);
    assert(segs[0].end() <= n);
    assert forall|i: int| 0 <= i < segs.skip(1).len() implies (#[trigger] segs.skip(1)[i]).end() <= n by { assert(segs.skip(1)[i] == segs[i + 1]); }
    if segs.len() > 1 { assert(segs[0].pos <= segs[1].pos); }
}
// the first result begins with the pile or the first slice, and the results are in order and inside
proof fn lemma_merged(pile: Option<(int, int)>, segs: Seq<Segment>, thr: int, n: int)
    requires pile_ok(pile, segs, n)
    ensures
        inorder(merged(pile, segs, thr)),
        within(merged(pile, segs, thr), n),
        pile matches Some((s, e)) ==> merged(pile, segs, thr).len() > 0 && merged(pile, segs, thr)[0].pos == s,
        pile is None && segs.len() > 0 ==> merged(pile, segs, thr).len() > 0 && merged(pile, segs, thr)[0].pos == segs[0].pos,
        pile is None && segs.len() == 0 ==> merged(pile, segs, thr).len() == 0,
    decreases segs.len()
{
    if segs.len() > 0 {
        lemma_pile_step(pile, segs, n);
        let x = segs[0];
        let next = match pile {
            None => Some((x.pos as int, x.end())),
            Some((s, e)) => if e > x.pos || x.pos - e <= thr { Some((s, if e >= x.end() { e } else { x.end() })) } else { Some((x.pos as int, x.end())) },
        };
        lemma_merged(next, segs.skip(1), thr, n);
        let t = merged(next, segs.skip(1), thr);
        let r = merged(pile, segs, thr);
        if pile is Some && !(pile->Some_0.1 > x.pos || x.pos - pile->Some_0.1 <= thr) {
            assert(r =~= seq![r[0]] + t);
            assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).pos <= (#[trigger] r[j]).pos by {
                if i > 0 { assert(t[i - 1].pos <= t[j - 1].pos); } else if j > 0 { assert(t[0].pos <= t[j - 1].pos); }
            }
            assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).end() <= n by { if i > 0 { assert(t[i - 1].end() <= n); } }
        }
    }
}
spec fn pile_back(pile: Option<(int, int)>, k: int) -> Option<(int, int)> {
    match pile { None => None, Some((s, e)) => Some((s - k, e - k)) }
}
// merging does not depend on where the positions are counted from
proof fn lemma_merged_shift(pile: Option<(int, int)>, segs: Seq<Segment>, thr: int, n: int, k: int)
    requires
        pile_ok(pile, segs, n),
        0 <= k,
        pile matches Some((s, e)) ==> k <= s,
        forall|i: int| 0 <= i < segs.len() ==> (#[trigger] segs[i]).pos >= k,
    ensures merged(pile_back(pile, k), shift(segs, k), thr) =~= shift(merged(pile, segs, thr), k)
    decreases segs.len()
{
    if segs.len() > 0 {
        lemma_pile_step(pile, segs, n);
        let x = segs[0];
        assert(shift(segs, k).skip(1) =~= shift(segs.skip(1), k));
        assert(shift(segs, k)[0].pos == x.pos - k && shift(segs, k)[0].end() == x.end() - k);
        assert forall|i: int| 0 <= i < segs.skip(1).len() implies (#[trigger] segs.skip(1)[i]).pos >= k by { assert(segs.skip(1)[i] == segs[i + 1]); }
        let next = match pile {
            None => Some((x.pos as int, x.end())),
            Some((s, e)) => if e > x.pos || x.pos - e <= thr { Some((s, if e >= x.end() { e } else { x.end() })) } else { Some((x.pos as int, x.end())) },
        };
        lemma_merged_shift(next, segs.skip(1), thr, n, k);
    }
}

// what comes out is further apart than the threshold
spec fn apart(s: Seq<Segment>, thr: int) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] s[i]).end() + thr < s[i + 1].pos }
proof fn lemma_apart(pile: Option<(int, int)>, segs: Seq<Segment>, thr: int, n: int)
    requires pile_ok(pile, segs, n), thr >= 0
    ensures apart(merged(pile, segs, thr), thr)
    decreases segs.len()
{
    if segs.len() > 0 {
        lemma_pile_step(pile, segs, n);
        let x = segs[0];
        match pile {
            None => { lemma_apart(Some((x.pos as int, x.end())), segs.skip(1), thr, n); }
            Some((s, e)) => {
                let fresh = Some((x.pos as int, x.end()));
                if e > x.pos || x.pos - e <= thr { lemma_apart(Some((s, if e >= x.end() { e } else { x.end() })), segs.skip(1), thr, n); }
                else {
                    lemma_apart(fresh, segs.skip(1), thr, n);
                    lemma_merged(fresh, segs.skip(1), thr, n);
                    let t = merged(fresh, segs.skip(1), thr);
                    let r = merged(pile, segs, thr);
                    assert(r =~= seq![r[0]] + t);
                    assert forall|i: int| 0 <= i < r.len() - 1 implies (#[trigger] r[i]).end() + thr < r[i + 1].pos by { if i > 0 { assert(t[i - 1].end() + thr < t[i].pos); } }
                }
            }
        }
    }
}
// every slice is inside of one that comes out
spec fn covered_by(x: Segment, s: Seq<Segment>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pos <= x.pos && x.end() <= s[i].end() }
proof fn lemma_covered(pile: Option<(int, int)>, segs: Seq<Segment>, thr: int, n: int, k: int)
    requires pile_ok(pile, segs, n), 0 <= k < segs.len()
    ensures covered_by(segs[k], merged(pile, segs, thr))
    decreases segs.len()
{
    lemma_pile_step(pile, segs, n);
    let x = segs[0];
    let next = match pile {
        None => Some((x.pos as int, x.end())),
        Some((s, e)) => if e > x.pos || x.pos - e <= thr { Some((s, if e >= x.end() { e } else { x.end() })) } else { Some((x.pos as int, x.end())) },
    };
    let t = merged(next, segs.skip(1), thr);
    if k > 0 { lemma_covered(next, segs.skip(1), thr, n, k - 1); } else { lemma_pile_first(next, segs.skip(1), thr, n); assert(t[0].pos <= x.pos && x.end() <= t[0].end()); }
    let r = merged(pile, segs, thr);
    if pile is Some && !(pile->Some_0.1 > x.pos || x.pos - pile->Some_0.1 <= thr) { assert(r =~= seq![r[0]] + t); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == r[i + 1] by {} }
    else { assert(r == t); }
    let w = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).pos <= segs[k].pos && segs[k].end() <= t[i].end();
    if r == t { assert(r[w].pos <= segs[k].pos); } else { assert(r[w + 1].pos <= segs[k].pos); }
}
// the pile only grows
proof fn lemma_pile_first(pile: Option<(int, int)>, segs: Seq<Segment>, thr: int, n: int)
    requires pile_ok(pile, segs, n), pile is Some
    ensures merged(pile, segs, thr).len() > 0, merged(pile, segs, thr)[0].pos == pile->Some_0.0, merged(pile, segs, thr)[0].end() >= pile->Some_0.1
    decreases segs.len()
{
    if segs.len() > 0 {
        lemma_pile_step(pile, segs, n);
        let x = segs[0];
        let (s, e) = pile->Some_0;
        if e > x.pos || x.pos - e <= thr { lemma_pile_first(Some((s, if e >= x.end() { e } else { x.end() })), segs.skip(1), thr, n); }
    }
}

impl Accumulator {
    spec fn pile(&self) -> Option<(int, int)> { if self.count == 0 { None } else { Some((self.start as int, self.end as int)) } }
    // no slice is further than this from an empty accumulator
    spec fn ok(&self, n: int) -> bool {
        &&& self.count == 0 ==> self.start >= usize::MAX - MAXLEN + n && self.end >= usize::MAX - MAXLEN + n
        &&& self.count > 0 ==> self.start <= self.end <= n
    }

//@fn src/segment/merge.rs Accumulator::new
//@spec
    ensures res.pile() is None, res.count == 0, res.start == usize::MAX, res.end == usize::MAX, res.merge_threshold == merge_threshold
//@end
//@fn src/segment/merge.rs Accumulator::init
//@spec
    ensures
        final(self).pile() == Some((start as int, end as int)), final(self).count == 1,
        final(self).start == start, final(self).end == end, final(self).merge_threshold == old(self).merge_threshold,
//@end
//@fn src/segment/merge.rs Accumulator::pop
//@spec
    requires old(self).start <= old(self).end
    ensures
        res == (Segment { pos: old(self).start, len: (old(self).end - old(self).start) as usize }),
        final(self).count == 0, final(self).start == usize::MAX, final(self).end == usize::MAX,
        final(self).merge_threshold == old(self).merge_threshold,
//@end
//@fn src/segment/merge.rs Accumulator::resume
//@spec
    requires segment.end() <= MAXLEN
    ensures
        res == (old(self).count == 0),
        !res ==> *final(self) == *old(self),
        res ==> final(self).pile() == Some((segment.pos as int, segment.end())) && final(self).count == 1,
        final(self).merge_threshold == old(self).merge_threshold,
//@end
//@fn src/segment/merge.rs Accumulator::append
//@spec
    requires
        old(self).count > 0, old(self).count < usize::MAX,
        old(self).start <= old(self).end,
        segment.end() <= MAXLEN,
        old(self).start <= segment.pos,
    ensures
        final(self).count == (if res is Some { 1int } else { old(self).count + 1 }),
        final(self).merge_threshold == old(self).merge_threshold,
        ({
            let (s, e) = (old(self).start as int, old(self).end as int);
            let far = !(e > segment.pos || segment.pos - e <= old(self).merge_threshold);
            &&& res is Some <==> far
            &&& res matches Some(p) ==> p == (Segment { pos: s as usize, len: (e - s) as usize }) && final(self).pile() == Some((segment.pos as int, segment.end()))
            &&& res is None ==> final(self).pile() == Some((s, if e >= segment.end() { e } else { segment.end() }))
        }),
//@end
//@fn src/segment/merge.rs Accumulator::furthest_margable_pos
//@spec
    ensures
        self.count == 0 ==> res == 0,
        self.count > 0 ==> res == (if self.end + self.merge_threshold <= usize::MAX { self.end + self.merge_threshold } else { usize::MAX as int }),
//@end
//@fn src/segment/merge.rs Accumulator::suspend
//@spec
    requires old(self).count > 0 ==> old(self).start <= old(self).end
    ensures
        final(self).merge_threshold == old(self).merge_threshold,
        res is None ==> *final(self) == *old(self),
        is_eof && old(self).count > 0 ==> res is Some,
        res matches Some(p) ==> {
            &&& old(self).count > 0
            &&& p == (Segment { pos: old(self).start, len: (old(self).end - old(self).start) as usize })
            &&& is_eof || max_consume > old(self).end + old(self).merge_threshold
            &&& final(self).count == 0 && final(self).start == usize::MAX && final(self).end == usize::MAX
        },
//@end
//@fn src/segment/merge.rs Accumulator::unwind
//@spec
    requires bytes <= old(self).start, bytes <= old(self).end
    ensures
        final(self).count == old(self).count, final(self).merge_threshold == old(self).merge_threshold,
        final(self).start == old(self).start - bytes, final(self).end == old(self).end - bytes,
//@end
}

//@struct src/segment/merge.rs MergeStream

impl MergeStream {
    spec fn ahead(&self) -> Seq<Segment> { self.src.segs().skip(self.src_scanned as int) }
    spec fn thr(&self) -> int { self.acc.merge_threshold as int }
    // what the accumulator makes of itself and the slices that are not scanned
    spec fn to_come(&self) -> Seq<Segment> { merged(self.acc.pile(), self.ahead(), self.thr()) }
    spec fn all(&self) -> Seq<Segment> { self.segments@ + self.to_come() }
    // without the promise on max_consume
    spec fn core(&self) -> bool {
        &&& segok(self.src)
        &&& 0 <= self.src_scanned <= self.src.known()
        &&& self.acc.ok(self.src.rest().len() as int)
        &&& self.acc.count <= self.src_scanned
        &&& forall|i: int| self.src_scanned - self.acc.count <= i < self.src_scanned ==> (#[trigger] self.src.segs()[i]).pos >= self.acc.start
        &&& self.acc.count > 0 ==> self.acc.end <= self.src.reach()
        &&& pile_ok(self.acc.pile(), self.ahead(), self.src.rest().len() as int)
        &&& inorder(self.all())
        &&& within(self.segments@, self.src.reach())
        &&& within(self.segments@, self.src.rest().len() as int)
    }

//@fn src/segment/merge.rs MergeStream::new
//@spec
    requires segok(src), src.known() == 0
    ensures
        res.wf(), res.rest() == src.rest(), res.full() == src.full(), res.known() == 0,
        res.segs() =~= merged(None, src.segs(), merge_threshold as int),
//@entry
        proof {
            assert(src.segs().skip(0) =~= src.segs());
            lemma_merged(None, src.segs(), merge_threshold as int, src.rest().len() as int);
            assert(Seq::<Segment>::empty() + merged(None, src.segs(), merge_threshold as int) =~= merged(None, src.segs(), merge_threshold as int));
        }
//@end
//@fn src/segment/merge.rs MergeStream::update_max_consume
//@spec
    requires old(self).core(), max_consume <= old(self).src.limit(), is_eof ==> bytes == old(self).src.limit() && old(self).src.known() == old(self).src.segs().len() && old(self).src_scanned == old(self).src.known() && old(self).acc.count == 0
    ensures
        *final(self) == (MergeStream { max_consume: final(self).max_consume, ..*old(self) }),
        final(self).max_consume == (if is_eof { bytes as int } else if max_consume <= old(self).acc.start { max_consume as int } else { old(self).acc.start as int }),
//@end
//@fn src/segment/merge.rs MergeStream::extend_segment_buf
//@spec
    requires
        old(self).core(),
        old(self).src.filled(),
        count == old(self).src.known(),
        max_consume <= old(self).src.limit(),
        max_consume <= MAXLEN,
        forall|i: int| count <= i < old(self).src.segs().len() ==> (#[trigger] old(self).src.segs()[i]).pos >= max_consume,
        is_eof ==> count == old(self).src.segs().len(),
    ensures
        final(self).core(),
        final(self).src == old(self).src,
        final(self).all() =~= old(self).all(),
        final(self).thr() == old(self).thr(),
        final(self).src_scanned == count,
        is_eof ==> final(self).acc.count == 0,
        final(self).max_consume == old(self).max_consume,
        old(self).segments.len() <= final(self).segments.len(),
//@entry
        let ghost s0 = *self;
        let ghost src = self.src.segs();
        let ghost n = self.src.rest().len() as int;
        proof {
            assert(self.segments@.take(self.segments.len() as int) =~= self.segments@);
        }
//@loop 1
    invariant
        self.src == s0.src,
        self.src.segs() == src,
        src.len() >= count,
        self.src_scanned == s0.src_scanned,
        self.max_consume == s0.max_consume,
        self.thr() == s0.thr(),
        segments@ == src.take(count as int),
        src_scanned <= count,
        s0.core(),
        n == self.src.rest().len(), n <= MAXLEN,
        count == self.src.known(),
        it.index@ <= count - src_scanned,
        it.seq().len() == count - src_scanned,
        forall|j: int| 0 <= j < count - src_scanned ==> *(#[trigger] it.seq()[j]) == src[src_scanned + j],
        self.acc.count > 0,
        self.acc.count <= src_scanned + it.index@,
        self.acc.ok(n),
        self.acc.end <= self.src.reach(),
        forall|i: int| src_scanned + it.index@ - self.acc.count <= i < src_scanned + it.index@ ==> (#[trigger] src[i]).pos >= self.acc.start,
        pile_ok(self.acc.pile(), src.skip(src_scanned + it.index@), n),
        self.segments@ + merged(self.acc.pile(), src.skip(src_scanned + it.index@), self.thr()) =~= s0.all(),
        within(self.segments@, self.src.reach()),
        within(self.segments@, n),
        s0.segments.len() <= self.segments.len(),
//@beforeloop 1
        proof {
            let a = s0.ahead();
            assert(a[0] == src[s0.src_scanned as int]);
            assert(src.take(count as int)[s0.src_scanned as int] == a[0]);
            lemma_pile_step(s0.acc.pile(), a, n);
            if s0.acc.count == 0 { assert(a.skip(1) =~= src.skip(src_scanned as int)); }
            assert(merged(self.acc.pile(), src.skip(src_scanned as int), self.thr()) =~= s0.to_come());
            assert(self.segments@ + s0.to_come() =~= s0.all());
        }
//@loopstart 1
        let ghost k = src_scanned + it.index@;
        let ghost t = src.skip(k);
        let ghost p0 = self.acc.pile();
        let ghost g0 = self.segments@;
        proof {
            assert(*next == src[k]);
            assert(t[0] == src[k]);
            lemma_pile_step(p0, t, n);
            assert(t.skip(1) =~= src.skip(k + 1));
            assert(src.take(count as int)[k] == src[k]);
        }
//@loopend 1
        proof {
            assert(merged(p0, t, self.thr()) =~= self.segments@.skip(g0.len() as int) + merged(self.acc.pile(), src.skip(k + 1), self.thr()));
        }
//@before `if let Some(s) = self.acc.suspend(is_eof, max_consume)`
        let ghost g1 = self.segments@;
        let ghost p1 = self.acc.pile();
        let ghost a1 = src.skip(count as int);
        proof {
            assert(s0.ahead() =~= src.skip(s0.src_scanned as int));
            assert(g1 + merged(p1, a1, self.thr()) =~= s0.all());
            assert(a1.len() > 0 ==> a1[0] == src[count as int]);
        }
//@exit
        proof {
            assert(self.ahead() =~= a1);
            if self.segments@ != g1 {
                assert(merged(p1, a1, self.thr()) =~= seq![self.segments@.last()] + merged(None, a1, self.thr()));
            }
            assert(self.all() =~= s0.all());
            assert(self.all() == s0.all());
        }
//@end
}

impl SegmentStream for MergeStream {
    spec fn wf(&self) -> bool {
        &&& self.core()
        &&& self.src_scanned == self.src.known()
        &&& self.max_consume <= self.src.limit()
        &&& self.max_consume <= self.acc.start
        &&& self.max_consume <= self.src.rest().len()
        &&& forall|i: int| self.src_scanned <= i < self.src.segs().len() ==> (#[trigger] self.src.segs()[i]).pos >= self.max_consume
    }
    spec fn rest(&self) -> Seq<u8> { self.src.rest() }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { self.src.avail() }
    spec fn known(&self) -> int { self.segments.len() as int }
    spec fn limit(&self) -> int { self.max_consume as int }
    spec fn reach(&self) -> int { self.src.reach() }
    spec fn filled(&self) -> bool { self.src.filled() }
    spec fn full(&self) -> bool { self.src.full() }
    spec fn ended(&self) -> bool { self.src.ended() }
    spec fn keeps(&self) -> bool { self.src.keeps() }

//@fn src/segment/merge.rs SegmentStream for MergeStream::fill_segment_buf
//@entry
        let ghost s0 = *self;
        let ghost sg = self.src.segs();
        proof { lemma_merged(self.acc.pile(), self.ahead(), self.thr(), self.src.rest().len() as int); }
//@before `self.extend_segment_buf(`
        proof {
            let n = self.src.rest().len() as int;
            assert(self.src.segs() == sg);
            assert forall|i: int| 0 <= i < sg.len() implies (#[trigger] sg[i]).end() <= n by { if i < count { assert(sg.take(count as int)[i] == sg[i]); } }
            assert(within(self.ahead(), n));
            assert(self.all() =~= s0.all());
            assert(self.core());
        }
//@tail `Ok`
        proof {
            let tc = self.to_come();
            lemma_merged(self.acc.pile(), self.ahead(), self.thr(), self.src.rest().len() as int);
            assert(self.ahead().len() > 0 ==> self.ahead()[0] == self.src.segs()[self.src_scanned as int]);
            assert forall|i: int| 0 <= i < tc.len() implies (#[trigger] tc[i]).pos >= self.max_consume by { assert(tc[0].pos <= tc[i].pos); }
            assert(self.all().take(self.segments.len() as int) =~= self.segments@);
            if is_eof { assert(tc.len() == 0); }
            else if self.acc.count > 0 {
                let k = self.segments.len() - s0.segments.len();
                assert(s0.all()[self.segments.len() as int] == tc[0]);
                assert(s0.to_come()[k] == tc[0]);
                assert(s0.to_come()[0].pos <= s0.to_come()[k].pos);
                assert(s0.ahead().len() > 0 ==> s0.ahead()[0] == sg[s0.src_scanned as int]);
            }
        }
//@spec
//@end
//@fn src/segment/merge.rs SegmentStream for MergeStream::as_slices
//@spec
//@end
//@fn src/segment/merge.rs SegmentStream for MergeStream::consume
//@spec
//@entry
        let ghost s0 = *self;
        let ghost total = self.src.rest().len() as int;
        let ghost tc = self.to_come();
        proof {
            lemma_merged(self.acc.pile(), self.ahead(), self.thr(), total);
            lemma_below(self.src.segs(), 0);
        }
//@before `self.src_scanned -=`
        proof {
            assert forall|i: int| 0 <= i < tc.len() implies (#[trigger] tc[i]).pos >= bytes by { assert(tc[0].pos <= tc[i].pos); }
            lemma_advance_parts(s0.segments@, tc, bytes as int);
            lemma_below(s0.src.segs(), bytes as int);
            lemma_advance(s0.src.segs(), bytes as int, total);
            lemma_advance_known(s0.src.segs(), s0.src.known(), bytes as int, s0.src.reach());
            if s0.acc.count > 0 { assert(s0.src.segs()[s0.src_scanned - s0.acc.count].pos >= bytes); }
        }
//@beforeloop 1
        let ghost s1 = *self;
        proof {
            lemma_below_is(s0.segments@, bytes as int, from as int);
            assert(s1.segments@ =~= s0.segments@.skip(from as int));
        }
//@loop 1
    invariant
        self.src == s1.src, self.acc == s1.acc, self.src_scanned == s1.src_scanned, self.max_consume == s1.max_consume,
        self.segments.len() == s1.segments.len(), it.iter.end == s1.segments.len(),
        forall|i: int| 0 <= i < s1.segments.len() ==> (#[trigger] s1.segments@[i]).pos >= bytes,
        forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (Segment { pos: (s1.segments@[i].pos - (if i < ix { bytes as int } else { 0 })) as usize, len: s1.segments@[i].len }),
//@afterloop 1
        proof { assert(self.segments@ =~= advance(s0.segments@, bytes as int)); }
//@tail `Ok`
        proof {
            let cnt = src_count as int;
            let a0 = s0.ahead();
            assert(self.ahead() =~= shift(a0, bytes as int));
            lemma_merged_shift(s0.acc.pile(), a0, s0.thr(), total, bytes as int);
            assert(self.acc.pile() == pile_back(s0.acc.pile(), bytes as int));
            assert(self.to_come() =~= shift(tc, bytes as int));
            assert(self.all() =~= advance(s0.all(), bytes as int));
            lemma_advance(s0.all(), bytes as int, total);
            lemma_inorder_tail(self.src.segs(), self.src_scanned as int);
        }
//@end
}
