//@struct src/segment/filter.rs Cutter

impl Cutter {
    spec fn wf(&self) -> bool {
        &&& all_left(self.filters@)
        &&& sorted(self.filters@)
        &&& self.tail_margin <= MAXOFF
        &&& forall|i: int| #![trigger self.tail_filters@[i]] 0 <= i < self.tail_filters.len() ==> {
            let f = self.tail_filters@[i];
            &&& !f.left()
            &&& (f.start matches EndAnchored(x) ==> x <= self.tail_margin)
            &&& (f.end matches EndAnchored(x) ==> x <= self.tail_margin)
            &&& (f.start is StartAnchored ==> self.trans_offset <= at(f.start, 0))
        }
    }
    // the p-th of `total` slices is in one of the ranges that are still pending
    spec fn kept(&self, total: int, p: int) -> bool {
        any_covers(self.filters@, total, p) || any_covers(self.tail_filters@, total, p)
    }
    spec fn keep(&self, total: int) -> spec_fn(int) -> bool { |p: int| self.kept(total, p) }
    spec fn empty(&self) -> bool { self.filters.len() == 0 && self.tail_filters.len() == 0 }
    // there never were ranges that count from the end
    spec fn plain(&self) -> bool { self.tail_margin == 0 && self.trans_offset == usize::MAX }

//@fn src/segment/filter.rs Cutter::from_str
//@subst `!exprs.is_empty()` => `!empty_str(exprs)`
//@subst `let mut filters = Vec::new();` => `let mut filters: Vec<RangeMapper> = Vec::new();`
//@subst `let mut tail_filters = Vec::new();` => `let mut tail_filters: Vec<RangeMapper> = Vec::new();`
//@subst `for expr in exprs.strip_suffix(',').unwrap_or(exprs).split(',') {` => `let parts = split_exprs(exprs); for k in 0..parts.len() { let expr = parts[k];`
//@subst `RangeMapper::from_str(expr)?` => `parse_range(expr)?`
//@subst `filters.sort_by_key(|x| Reverse(x.sort_key()));` => `sort_by_key_desc(&mut filters);`
//@subst `tail_filters.iter().map(|x| x.trans_offset()).min().unwrap_or(usize::MAX)` => `min_trans_offset(&tail_filters)`
//@subst `tail_filters.iter().map(|x| x.tail_margin()).max().unwrap_or(0)` => `max_tail_margin(&tail_filters)`
//@spec
    ensures
        res matches Ok(c) ==> {
            &&& c.wf()
            &&& c.tail_filters.len() == 0 ==> c.tail_margin == 0 && c.trans_offset == usize::MAX
            // the ranges of the expression, no more and no less
            &&& forall|total: int, p: int| #[trigger] c.kept(total, p) == any_covers(ranges_of(exprs@), total, p)
        }
//@loop 1
            invariant
                parts.len() == pieces(exprs@).len(),
                exprs@.len() > 0,
                ranges_of(exprs@).len() == parts.len(),
                forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts@[i])@ == pieces(exprs@)[i],
                all_left(filters@),
                forall|i: int| #![trigger tail_filters@[i]] 0 <= i < tail_filters.len() ==> !tail_filters@[i].left()
                    && (tail_filters@[i].start matches EndAnchored(x) ==> x <= MAXOFF) && (tail_filters@[i].end matches EndAnchored(x) ==> x <= MAXOFF),
                split_into(filters@, tail_filters@, ranges_of(exprs@).take(k as int)),
//@loopstart 1
            let ghost (f0, t0) = (filters@, tail_filters@);
            let ghost r0 = ranges_of(exprs@).take(k as int);
            proof {
                assert(ranges_of(exprs@).take(k + 1) =~= r0.push(ranges_of(exprs@)[k as int]));
                assert(ranges_of(exprs@)[k as int] == range_of(parts@[k as int]@));
            }
//@loopend 1
            proof {
                let m = range_of(parts@[k as int]@);
                assert(filters@ == f0.push(m) && tail_filters@ == t0 || filters@ == f0 && tail_filters@ == t0.push(m));
                assert forall|total: int, p: int| #[trigger] any_covers(ranges_of(exprs@).take(k + 1), total, p) ==
                    (any_covers(filters@, total, p) || any_covers(tail_filters@, total, p)) by {
                    lemma_push_covers(f0, m, total, p);
                    lemma_push_covers(t0, m, total, p);
                    lemma_push_covers(r0, m, total, p);
                }
            }
//@before `sort_by_key_desc(`
        let ghost f1 = filters@;
        proof {
            if exprs@.len() > 0 { assert(ranges_of(exprs@).take(ranges_of(exprs@).len() as int) =~= ranges_of(exprs@)); }
            assert(split_into(filters@, tail_filters@, ranges_of(exprs@)));
        }
//@tail `Ok`
        proof {
            assert forall|total: int, p: int| #[trigger] any_covers(ranges_of(exprs@), total, p) ==
                (any_covers(filters@, total, p) || any_covers(tail_filters@, total, p)) by { lemma_perm_covers(f1, filters@, total, p); }
            if ret is Ok { let c = ret->Ok_0;
                assert forall|total: int, p: int| #[trigger] c.kept(total, p) == any_covers(ranges_of(exprs@), total, p) by { }
            }
        }
//@end
//@fn src/segment/filter.rs Cutter::is_empty
//@spec
    ensures res == self.empty()
//@subst `self.tail_filters.is_empty()` => `(self.tail_filters.len() == 0)`
//@subst `self.filters.is_empty()` => `(self.filters.len() == 0)`
//@end
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@fn src/segment/filter.rs Cutter::accumulate
//@sig fn accumulate(&mut self, scanned: usize, offset: usize, is_eof: bool, count: usize, segments: &[Segment], v: &mut Vec<Segment>, Ghost(total): Ghost<int>) -> Result<usize>
//@subst `self.tail_filters.is_empty()` => `(self.tail_filters.len() == 0)`
//@subst `self.filters.sort_by_key(|x| Reverse(x.sort_key()));` => `sort_by_key_desc(&mut self.filters);`
//@subst `for filter in &self.tail_filters` => `for filter in it: &self.tail_filters`
//@spec
    requires
        old(self).wf(),
        scanned <= count <= segments.len(),
        offset + count <= total <= MAXLEN,
        is_eof ==> total == offset + count,
    ensures
        res matches Ok(n) ==> {
            &&& scanned <= n <= count
            &&& final(self).wf()
            &&& final(self).tail_margin == old(self).tail_margin
            &&& final(self).trans_offset == old(self).trans_offset
            &&& final(self).tail_filters.len() <= old(self).tail_filters.len()
            &&& is_eof ==> n == count && final(self).empty()
            &&& !is_eof && final(self).plain() ==> n == count
            &&& !is_eof ==> final(self).tail_filters@ == old(self).tail_filters@
            &&& old(self).empty() ==> final(self).empty()
            // exactly the slices whose index is kept, each once
            &&& final(v)@ =~= old(v)@ + picked(segments@.subrange(scanned as int, n as int), offset + scanned, old(self).keep(total))
            &&& forall|p: int| offset + n <= p < total ==> (#[trigger] final(self).kept(total, p) == old(self).kept(total, p))
        }
//@entry
        let ghost keep = self.keep(total);
        let ghost v0 = v@;
        let ghost s0 = *self;
        let ghost base = offset + scanned;
        let ghost from = scanned as int;
//@loop 1
            invariant
                self.tail_filters@ == s0.tail_filters@,
                self.trans_offset == s0.trans_offset,
                self.tail_margin == s0.tail_margin,
                all_left(self.filters@),
                forall|p: int| #[trigger] any_covers(self.filters@, total, p) ==
                    (any_covers(s0.filters@, total, p) || any_covers(s0.tail_filters@.subrange(0, it.index@), total, p)),
//@loopstart 1
                let ghost f0 = self.filters@;
//@loopend 1
                proof {
                    assert forall|p: int| #[trigger] any_covers(self.filters@, total, p) ==
                        (any_covers(f0, total, p) || filter.covers(total, p)) by { lemma_push_covers(f0, self.filters@.last(), total, p); }
                    let t = s0.tail_filters@;
                    assert(t.subrange(0, it.index@ + 1) =~= t.subrange(0, it.index@).push(*filter));
                    assert forall|p: int| #[trigger] any_covers(t.subrange(0, it.index@ + 1), total, p) ==
                        (any_covers(t.subrange(0, it.index@), total, p) || filter.covers(total, p)) by {
                        lemma_push_covers(t.subrange(0, it.index@), *filter, total, p);
                    }
                }
//@before `sort_by_key_desc(`
            let ghost f1 = self.filters@;
            proof { assert(s0.tail_filters@.subrange(0, s0.tail_filters.len() as int) =~= s0.tail_filters@); }
//@after `sort_by_key_desc(&mut self.filters);`
            proof {
                assert forall|p: int| #[trigger] self.kept(total, p) == s0.kept(total, p) by {
                    lemma_perm_covers(f1, self.filters@, total, p);
                    assert(!any_covers(self.tail_filters@, total, p));
                }
            }
//@before `let mut last_scanned`
        let ghost s1 = *self;
        proof {
            assert(s1.wf());
            assert forall|p: int| #[trigger] keep(p) == s1.kept(total, p) by {}
            assert forall|p: int| offset <= p < offset + scan_upto implies !any_covers(s1.tail_filters@, total, p) by {
                if any_covers(s1.tail_filters@, total, p) {
                    let i = choose|i: int| 0 <= i < s1.tail_filters@.len() && #[trigger] s1.tail_filters@[i].covers(total, p);
                    let f = s1.tail_filters@[i];
                    assert(!f.left());
                }
            }
            assert(segments@.subrange(from, from) =~= Seq::<Segment>::empty());
            assert(v@ =~= v0 + picked(segments@.subrange(from, from), base, keep));
        }
//@beforeloop 2
        let ghost mut gf = self.filters@;
//@loop 2
            invariant_except_break
                gf == self.filters@,
            invariant
                self.wf(),
                self.tail_filters@ == s1.tail_filters@,
                self.tail_margin == s1.tail_margin,
                self.trans_offset == s1.trans_offset,
                s0.empty() ==> self.filters.len() == 0,
                from <= scan_upto ==> from <= last_scanned <= scan_upto && v@ =~= v0 + picked(segments@.subrange(from, last_scanned as int), base, keep),
                from > scan_upto ==> scan_upto <= last_scanned <= from && v@ =~= v0,
                forall|p: int| offset + last_scanned <= p < total && offset + from <= p ==> #[trigger] s1.kept(total, p) == self.kept(total, p),
            ensures
                self.wf(),
                self.tail_filters@ == s1.tail_filters@,
                self.tail_margin == s1.tail_margin,
                self.trans_offset == s1.trans_offset,
                s0.empty() ==> self.filters.len() == 0,
                is_eof ==> self.filters.len() == 0,
                from <= scan_upto ==> from <= last_scanned <= scan_upto && v@ =~= v0 + picked(segments@.subrange(from, last_scanned as int), base, keep),
                from > scan_upto ==> v@ =~= v0,
                forall|p: int| offset + scan_upto <= p < total && offset + from <= p ==> #[trigger] s1.kept(total, p) == self.kept(total, p),
                from <= scan_upto ==> forall|p: int| offset + last_scanned <= p < offset + scan_upto ==> !#[trigger] s1.kept(total, p),
            decreases self.filters.len()
//@loopstart 2
            let ghost f2 = self.filters@.push(filter);
            let ghost l0 = last_scanned as int;
            proof {
                assert(f2 =~= gf);
                gf = self.filters@;
                assert(all_left(f2));
                assert(f2[f2.len() - 1].left());
                assert(filter.left());
                assert forall|p: int| #[trigger] any_covers(f2, total, p) ==
                    (any_covers(self.filters@, total, p) || filter.covers(total, p)) by { lemma_push_covers(self.filters@, filter, total, p); }
            }
//@after `last_scanned = end;`
            proof {
                if from <= scan_upto {
                    assert forall|p: int| offset + l0 <= p < offset + start implies !#[trigger] keep(p) by {
                        assert(s1.kept(total, p) == any_covers(f2, total, p));
                        assert(filter.lo(0) > p);
                        if any_covers(f2, total, p) {
                            let i = choose|i: int| 0 <= i < f2.len() && #[trigger] f2[i].covers(total, p);
                            assert(i == f2.len() - 1 || key_le(f2[f2.len() - 1], f2[i]));
                            assert(f2[i].left());
                            assert(false);
                        }
                    }
                    assert forall|p: int| offset + start <= p < offset + end implies #[trigger] keep(p) by {
                        assert(filter.covers(0, p));
                        assert(filter.covers(total, p));
                        assert(s1.kept(total, p) == any_covers(f2, total, p));
                    }
                    lemma_picked_from(segments@, base, keep, from, l0, start as int, end as int);
                } else {
                    assert(segments@.subrange(start as int, end as int) =~= Seq::<Segment>::empty());
                }
                assert forall|p: int| offset + end <= p < total && offset + from <= p && !(!is_eof && range.end > scan_upto) implies
                    #[trigger] s1.kept(total, p) == self.kept(total, p) by {
                    assert(!filter.covers(0, p));
                    assert(filter.covers(total, p) == filter.covers(0, p));
                }
            }
//@after `self.filters.push(filter);`
                proof {
                    assert(self.filters@ =~= f2);
                }
//@tail `Ok(scanned)`
        proof {
            if from <= scan_upto {
                assert forall|p: int| offset + last_scanned <= p < offset + scan_upto implies !#[trigger] keep(p) by {}
                lemma_picked_from(segments@, base, keep, from, last_scanned as int, scan_upto as int, scan_upto as int);
            }
        }
//@end
}

// a piece [a, b) of s that is skipped up to x and then kept
proof fn lemma_picked_from<T>(s: Seq<T>, base: int, keep: spec_fn(int) -> bool, from: int, a: int, x: int, b: int)
    requires
        0 <= from <= a <= x <= b <= s.len(),
        forall|p: int| base + (a - from) <= p < base + (x - from) ==> !#[trigger] keep(p),
        forall|p: int| base + (x - from) <= p < base + (b - from) ==> #[trigger] keep(p),
    ensures
        picked(s.subrange(from, b), base, keep) =~= picked(s.subrange(from, a), base, keep) + s.subrange(x, b)
{
    let t = s.skip(from);
    assert(t.subrange(0, b - from) =~= s.subrange(from, b));
    assert(t.subrange(0, a - from) =~= s.subrange(from, a));
    assert(t.subrange(x - from, b - from) =~= s.subrange(x, b));
    lemma_picked_step(t, base, keep, a - from, x - from, b - from);
}

// what is picked comes from the slices, in their order
proof fn lemma_picked_segs(s: Seq<Segment>, base: int, keep: spec_fn(int) -> bool)
    requires inorder(s)
    ensures
        inorder(picked(s, base, keep)),
        forall|i: int| 0 <= i < picked(s, base, keep).len() ==> s.contains(#[trigger] picked(s, base, keep)[i]),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_inorder_tail(s, s.len() - 1);
        assert(s.take(s.len() - 1) =~= t);
        lemma_picked_segs(t, base, keep);
        let p = picked(t, base, keep);
        let r = picked(s, base, keep);
        assert forall|i: int| 0 <= i < r.len() implies s.contains(#[trigger] r[i]) by {
            if i < p.len() { assert(t.contains(p[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == p[i]; assert(s[j] == r[i]); }
            else { assert(r[i] == s[s.len() - 1]); }
        }
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).pos <= (#[trigger] r[j]).pos by {
            if j >= p.len() {
                assert(s.contains(r[i]));
                let k = choose|k: int| 0 <= k < s.len() && s[k] == r[i];
                assert(s[k].pos <= s[s.len() - 1].pos);
            } else { assert(p[i].pos <= p[j].pos); }
        }
    }
}
proof fn lemma_picked_shift(s: Seq<Segment>, base: int, keep: spec_fn(int) -> bool, n: int)
    ensures picked(shift(s, n), base, keep) =~= shift(picked(s, base, keep), n)
    decreases s.len()
{
    if s.len() > 0 {
        assert(shift(s, n).drop_last() =~= shift(s.drop_last(), n));
        lemma_picked_shift(s.drop_last(), base, keep, n);
    }
}

//@struct src/segment/filter.rs FilterStream

// what is picked later lies behind the limit if what has not been scanned does
proof fn lemma_rest_behind(sg: Seq<Segment>, n: int, c0: int, keep: spec_fn(int) -> bool, m: int)
    requires inorder(sg), 0 <= n <= sg.len(), n < sg.len() ==> sg[n].pos >= m
    ensures
        forall|i: int| n <= i < sg.len() ==> (#[trigger] sg[i]).pos >= m,
        forall|i: int| 0 <= i < picked(sg.skip(n), c0 + n, keep).len() ==> (#[trigger] picked(sg.skip(n), c0 + n, keep)[i]).pos >= m,
{
    let tc = picked(sg.skip(n), c0 + n, keep);
    lemma_inorder_tail(sg, n);
    lemma_picked_segs(sg.skip(n), c0 + n, keep);
    assert forall|i: int| n <= i < sg.len() implies (#[trigger] sg[i]).pos >= m by { assert(sg[n].pos <= sg[i].pos); }
    assert forall|i: int| 0 <= i < tc.len() implies (#[trigger] tc[i]).pos >= m by {
        assert(sg.skip(n).contains(tc[i]));
        let j = choose|j: int| 0 <= j < sg.skip(n).len() && sg.skip(n)[j] == tc[i];
        assert(sg[n + j] == tc[i]);
    }
}
impl FilterStream {
    spec fn total(&self) -> int { self.src_consumed + self.src.segs().len() }
    spec fn to_come(&self) -> Seq<Segment> {
        picked(self.src.segs().skip(self.src_scanned as int), self.src_consumed + self.src_scanned, self.cutter.keep(self.total()))
    }
    spec fn all(&self) -> Seq<Segment> { self.segments@ + self.to_come() }

//@fn src/segment/filter.rs FilterStream::new
//@spec
    requires segok(src), src.known() == 0, src.segs().len() <= MAXLEN
    ensures
        res matches Ok(f) ==> {
            &&& f.wf()
            &&& f.rest() == src.rest()
            &&& f.known() == 0
            // the slices whose index is in one of the ranges
            &&& f.segs() =~= picked(src.segs(), 0, |p: int| any_covers(ranges_of(exprs@), src.segs().len() as int, p))
        }
//@entry
        let ghost sg = src.segs();
        let ghost keep = |p: int| any_covers(ranges_of(exprs@), sg.len() as int, p);
//@tail `Ok`
        proof {
            if ret is Ok {
                let f = ret->Ok_0;
                assert(sg.skip(0) =~= sg);
                lemma_picked_ext(sg, 0, f.cutter.keep(f.total()), keep);
                lemma_picked_segs(sg, 0, keep);
                assert(f.all() =~= picked(sg, 0, keep));
            }
        }
//@end
}

impl SegmentStream for FilterStream {
    spec fn wf(&self) -> bool {
        &&& segok(self.src)
        &&& self.cutter.wf()
        &&& 0 <= self.src_scanned <= self.src.known()
        &&& self.total() <= MAXLEN
        &&& inorder(self.all())
        &&& within(self.segments@, self.reach())
        &&& within(self.segments@, MAXLEN)
        &&& self.max_consume <= self.src.limit()
        &&& self.is_eof ==> self.cutter.empty()
        &&& self.cutter.tail_filters.len() == 0 ==> self.cutter.plain() || self.src_scanned == self.src.segs().len()
        &&& forall|i: int| self.src_scanned <= i < self.src.segs().len() ==> (#[trigger] self.src.segs()[i]).pos >= self.max_consume
    }
    // the stream ends early when the last slice is found
    spec fn rest(&self) -> Seq<u8> { if self.is_eof { self.src.rest().take(self.max_consume as int) } else { self.src.rest() } }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { if self.is_eof { self.max_consume as int } else { self.src.avail() } }
    spec fn known(&self) -> int { self.segments.len() as int }
    spec fn limit(&self) -> int { self.max_consume as int }
    spec fn reach(&self) -> int { if self.is_eof { self.max_consume as int } else { self.src.reach() } }
    spec fn filled(&self) -> bool { self.src.filled() && self.avail() <= self.src.avail() }
    spec fn full(&self) -> bool { false }
    spec fn ended(&self) -> bool { self.is_eof }
    spec fn keeps(&self) -> bool { false }

//@fn src/segment/filter.rs SegmentStream for FilterStream::fill_segment_buf
//@subst `.accumulate(self.src_scanned, self.src_consumed, is_eof, count, segments, &mut self.segments)` => `.accumulate(self.src_scanned, self.src_consumed, is_eof, count, segments, &mut self.segments, Ghost(total))`
//@subst `self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max)` => `furthest_tail(&self.segments, self.max_consume)`
//@spec
//@entry
        let ghost s0 = *self;
        let ghost total = self.total();
        let ghost sg = self.src.segs();
        let ghost sc0 = self.src_scanned as int;
        let ghost c0 = self.src_consumed as int;
        let ghost keep = self.cutter.keep(total);
//@before `let (_, segments)`
        let ghost b0 = bytes as int;
        let ghost m0 = max_consume as int;
        let ghost e0 = is_eof;
        proof {
            lemma_segok_fill(s0.src, self.src, is_eof, bytes as int, count as int);
            assert(self.src.segs() == sg);
        }
//@before `let furthest`
        let ghost n = scanned as int;
        proof {
            let a = sg.skip(sc0);
            let x = sg.subrange(sc0, n);
            assert(segments@.subrange(sc0, n) =~= x);
            assert(a =~= x + sg.skip(n));
            lemma_picked_add(x, sg.skip(n), c0 + sc0, keep);
            lemma_picked_ext(sg.skip(n), c0 + n, keep, self.cutter.keep(total));
            if self.cutter.empty() { lemma_picked_none(sg.skip(n), c0 + n, self.cutter.keep(total)); }
            assert(s0.all() =~= self.segments@ + picked(sg.skip(n), c0 + n, self.cutter.keep(total)));
            // what has been picked lies in what is exposed
            lemma_inorder_tail(sg, sc0);
            lemma_inorder_tail(sg.skip(sc0), n - sc0);
            assert(sg.skip(sc0).take(n - sc0) =~= x);
            lemma_picked_segs(x, c0 + sc0, keep);
            let y = picked(x, c0 + sc0, keep);
            assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i]).end() <= self.src.reach() by {
                assert(x.contains(y[i]));
                let j = choose|j: int| 0 <= j < x.len() && x[j] == y[i];
                assert(sg.take(count as int)[sc0 + j] == y[i]);
            }
            if s0.is_eof { lemma_picked_none(x, c0 + sc0, keep); }
        }
//@tail `Ok`
        proof {
            if s0.is_eof {
                assert(self.cutter.empty());
                assert(self.segments@ =~= s0.segments@);
                assert(furthest == s0.max_consume) by {
                    if furthest != s0.max_consume {
                        let i = choose|i: int| 0 <= i < self.segments.len() && (#[trigger] self.segments@[i]).end() == furthest;
                        assert(s0.segments@[i].end() <= s0.max_consume);
                    }
                }
            }
            let r0 = s0.src.rest();
            let b = bytes as int;
            assert(e0 ==> r0.take(b0).take(b) =~= r0.take(b));
            if s0.is_eof { assert(r0.take(b).take(b) =~= r0.take(b)); }
            assert(self.all() =~= s0.all());
            assert(self.all() == s0.all());
            let tc = self.to_come();
            if n < count { assert(segments@[n] == sg[n]); }
            lemma_rest_behind(sg, n, c0, self.cutter.keep(total), self.max_consume as int);
            assert(self.all().take(self.segments.len() as int) =~= self.segments@);
        }
//@end
//@fn src/segment/filter.rs SegmentStream for FilterStream::as_slices
//@spec
//@end
//@fn src/segment/filter.rs SegmentStream for FilterStream::consume
//@spec
//@entry
        let ghost s0 = *self;
        let ghost sg = self.src.segs();
        let ghost tc = self.to_come();
        let ghost n0 = self.src_scanned as int;
//@before `self.src_scanned -=`
        proof {
            lemma_below_is_le(sg, src_bytes as int, n0);
            lemma_segok_consume(s0.src, self.src, src_bytes as int, src_count as int);
        }
//@before `let from`
        proof {
            assert(self.segments@ == s0.segments@);
            assert forall|i: int, j: int| 0 <= i <= j < s0.segments@.len() implies (#[trigger] s0.segments@[i]).pos <= (#[trigger] s0.segments@[j]).pos by {
                assert(s0.all()[i] == s0.segments@[i] && s0.all()[j] == s0.segments@[j]);
            }
        }
//@beforeloop 1
        let ghost s1 = *self;
        proof {
            lemma_inorder_tail(sg, n0);
            lemma_picked_segs(sg.skip(n0), s0.src_consumed + n0, s0.cutter.keep(s0.total()));
            assert forall|i: int| 0 <= i < tc.len() implies (#[trigger] tc[i]).pos >= bytes by {
                assert(sg.skip(n0).contains(tc[i]));
                let j = choose|j: int| 0 <= j < sg.skip(n0).len() && sg.skip(n0)[j] == tc[i];
                assert(sg[n0 + j] == tc[i]);
            }
            lemma_advance_parts(s0.segments@, tc, bytes as int);
            lemma_below_is(s0.segments@, bytes as int, from as int);
            assert(s1.segments@ =~= s0.segments@.skip(from as int));
        }
//@loop 1
    invariant
        self.src == s1.src, self.src_scanned == s1.src_scanned, self.src_consumed == s1.src_consumed, self.max_consume == s1.max_consume,
        self.is_eof == s1.is_eof, self.cutter == s1.cutter,
        self.segments.len() == s1.segments.len(), it.iter.end == s1.segments.len(),
        forall|i: int| 0 <= i < s1.segments.len() ==> (#[trigger] s1.segments@[i]).pos >= bytes,
        forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (Segment { pos: (s1.segments@[i].pos - (if i < ix { bytes as int } else { 0 })) as usize, len: s1.segments@[i].len }),
//@afterloop 1
        proof { assert(self.segments@ =~= advance(s0.segments@, bytes as int)); }
//@tail `Ok`
        proof {
            let b = bytes as int;
            let sk = sg.skip(n0);
            lemma_below(sg, src_bytes as int);
            assert(self.src.segs().skip(self.src_scanned as int) =~= shift(sk, src_bytes as int));
            lemma_picked_shift(sk, s0.src_consumed + n0, s0.cutter.keep(s0.total()), src_bytes as int);
            if s0.is_eof {
                lemma_picked_none(sk, s0.src_consumed + n0, s0.cutter.keep(s0.total()));
                lemma_picked_none(shift(sk, src_bytes as int), s0.src_consumed + n0, s0.cutter.keep(s0.total()));
            }
            assert(self.total() == s0.total());
            assert(self.to_come() =~= shift(tc, b));
            assert(self.all() =~= advance(s0.all(), b));
            assert(self.all() == advance(s0.all(), b));
            lemma_below(s0.all(), b);
            let t = s0.all();
            assert forall|i: int, j: int| 0 <= i <= j < self.all().len() implies (#[trigger] self.all()[i]).pos <= (#[trigger] self.all()[j]).pos by {
                let k = below(t, b);
                assert(t[i + k].pos <= t[j + k].pos && t[i + k].pos >= b);
            }
        }
//@end
}
