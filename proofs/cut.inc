//@struct src/byte/cut.rs Cutter

impl Cutter {
    spec fn wf(&self) -> bool {
        &&& all_left(self.filters@)
        &&& sorted(self.filters@)
        &&& self.tail_margin <= MAXOFF
        &&& forall|i: int| #![trigger self.tail_filters@[i]] 0 <= i < self.tail_filters.len() ==> {
            let f = self.tail_filters@[i];
            &&& !f.left()
            &&& (f.start matches EndAnchored(x) ==> x <= self.tail_margin)
            &&& (f.end matches EndAnchored(x) ==> x <= self.tail_margin)
            &&& (f.start is StartAnchored ==> self.trans_offset <= at(f.start, 0))
        }
    }
    // byte p of a stream of `total` bytes is in one of the ranges that are still pending
    spec fn kept(&self, total: int, p: int) -> bool {
        any_covers(self.filters@, total, p) || any_covers(self.tail_filters@, total, p)
    }
    spec fn keep(&self, total: int) -> spec_fn(int) -> bool { |p: int| self.kept(total, p) }

//@fn src/byte/cut.rs Cutter::min_fill_bytes
//@spec
    requires request + self.tail_margin + 1 <= usize::MAX
    ensures res == request + self.tail_margin + 1
//@end
//@fn src/byte/cut.rs Cutter::from_str
//@subst `!exprs.is_empty()` => `!empty_str(exprs)`
//@subst `let mut filters = Vec::new();` => `let mut filters: Vec<RangeMapper> = Vec::new();`
//@subst `let mut tail_filters = Vec::new();` => `let mut tail_filters: Vec<RangeMapper> = Vec::new();`
//@subst `for expr in exprs.strip_suffix(',').unwrap_or(exprs).split(',') {` => `let parts = split_exprs(exprs); for k in 0..parts.len() { let expr = parts[k];`
//@subst `RangeMapper::from_str(expr)?` => `parse_range(expr)?`
//@subst `filters.sort_by_key(|x| Reverse(x.sort_key()));` => `sort_by_key_desc(&mut filters);`
//@subst `tail_filters.iter().map(|x| x.trans_offset()).min().unwrap_or(usize::MAX)` => `min_trans_offset(&tail_filters)`
//@subst `tail_filters.iter().map(|x| x.tail_margin()).max().unwrap_or(0)` => `max_tail_margin(&tail_filters)`
//@spec
    ensures
        res matches Ok(c) ==> {
            &&& c.wf()
            &&& c.tail_filters.len() == 0 ==> c.tail_margin == 0 && c.trans_offset == usize::MAX
            // the ranges of the expression, no more and no less
            &&& forall|total: int, p: int| #[trigger] c.kept(total, p) == any_covers(ranges_of(exprs@), total, p)
        }
//@loop 1
            invariant
                parts.len() == pieces(exprs@).len(),
                exprs@.len() > 0,
                ranges_of(exprs@).len() == parts.len(),
                forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts@[i])@ == pieces(exprs@)[i],
                all_left(filters@),
                forall|i: int| #![trigger tail_filters@[i]] 0 <= i < tail_filters.len() ==> !tail_filters@[i].left()
                    && (tail_filters@[i].start matches EndAnchored(x) ==> x <= MAXOFF) && (tail_filters@[i].end matches EndAnchored(x) ==> x <= MAXOFF),
                split_into(filters@, tail_filters@, ranges_of(exprs@).take(k as int)),
//@loopstart 1
            let ghost (f0, t0) = (filters@, tail_filters@);
            let ghost r0 = ranges_of(exprs@).take(k as int);
            proof {
                assert(ranges_of(exprs@).take(k + 1) =~= r0.push(ranges_of(exprs@)[k as int]));
                assert(ranges_of(exprs@)[k as int] == range_of(parts@[k as int]@));
            }
//@loopend 1
            proof {
                let m = range_of(parts@[k as int]@);
                assert(filters@ == f0.push(m) && tail_filters@ == t0 || filters@ == f0 && tail_filters@ == t0.push(m));
                assert forall|total: int, p: int| #[trigger] any_covers(ranges_of(exprs@).take(k + 1), total, p) ==
                    (any_covers(filters@, total, p) || any_covers(tail_filters@, total, p)) by {
                    lemma_push_covers(f0, m, total, p);
                    lemma_push_covers(t0, m, total, p);
                    lemma_push_covers(r0, m, total, p);
                }
            }
//@before `sort_by_key_desc(`
        let ghost f1 = filters@;
        proof {
            if exprs@.len() > 0 { assert(ranges_of(exprs@).take(ranges_of(exprs@).len() as int) =~= ranges_of(exprs@)); }
            assert(split_into(filters@, tail_filters@, ranges_of(exprs@)));
        }
//@tail `Ok`
        proof {
            assert forall|total: int, p: int| #[trigger] any_covers(ranges_of(exprs@), total, p) ==
                (any_covers(filters@, total, p) || any_covers(tail_filters@, total, p)) by { lemma_perm_covers(f1, filters@, total, p); }
            if ret is Ok { let c = ret->Ok_0;
                assert forall|total: int, p: int| #[trigger] c.kept(total, p) == any_covers(ranges_of(exprs@), total, p) by { }
            }
        }
//@end
//@fn src/byte/cut.rs Cutter::is_empty
//@spec
    ensures res == (self.filters.len() == 0 && self.tail_filters.len() == 0)
//@subst `self.tail_filters.is_empty()` => `(self.tail_filters.len() == 0)`
//@subst `self.filters.is_empty()` => `(self.filters.len() == 0)`
//@end
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@fn src/byte/cut.rs Cutter::accumulate
//@sig fn accumulate(&mut self, offset: usize, is_eof: bool, bytes: usize, stream: &[u8], v: &mut Vec<u8>, Ghost(total): Ghost<int>) -> Result<usize>
//@subst `self.tail_filters.is_empty()` => `(self.tail_filters.len() == 0)`
//@subst `self.filters.sort_by_key(|x| Reverse(x.sort_key()));` => `sort_by_key_desc(&mut self.filters);`
//@subst `for filter in &self.tail_filters` => `for filter in it: &self.tail_filters`
//@spec
    requires
        old(self).wf(),
        bytes <= stream.len(),
        0 <= offset + bytes <= total <= MAXLEN,
        is_eof ==> total == offset + bytes,
    ensures
        res matches Ok(n) && n <= bytes && final(self).wf()
        && final(self).tail_margin == old(self).tail_margin
        && (is_eof ==> n == bytes)
        // the bytes that are passed are exactly those that are kept, each once
        && final(v)@ =~= old(v)@ + picked(stream@.subrange(0, n as int), offset as int, old(self).keep(total))
        // and nothing is lost of what is to come
        && (forall|p: int| offset + n <= p < total ==> (#[trigger] final(self).kept(total, p) == old(self).kept(total, p)))
//@entry
        let ghost keep = self.keep(total);
        let ghost v0 = v@;
        let ghost s0 = *self;
//@loop 1
            invariant
                self.tail_filters@ == s0.tail_filters@,
                self.trans_offset == s0.trans_offset,
                self.tail_margin == s0.tail_margin,
                all_left(self.filters@),
                forall|p: int| #[trigger] any_covers(self.filters@, total, p) ==
                    (any_covers(s0.filters@, total, p) || any_covers(s0.tail_filters@.subrange(0, it.index@), total, p)),
//@loopstart 1
                let ghost f0 = self.filters@;
//@loopend 1
                proof {
                    assert forall|p: int| #[trigger] any_covers(self.filters@, total, p) ==
                        (any_covers(f0, total, p) || filter.covers(total, p)) by { lemma_push_covers(f0, self.filters@.last(), total, p); }
                    let t = s0.tail_filters@;
                    assert(t.subrange(0, it.index@ + 1) =~= t.subrange(0, it.index@).push(*filter));
                    assert forall|p: int| #[trigger] any_covers(t.subrange(0, it.index@ + 1), total, p) ==
                        (any_covers(t.subrange(0, it.index@), total, p) || filter.covers(total, p)) by {
                        lemma_push_covers(t.subrange(0, it.index@), *filter, total, p);
                    }
                }
//@before `sort_by_key_desc(`
            let ghost f1 = self.filters@;
            proof { assert(s0.tail_filters@.subrange(0, s0.tail_filters.len() as int) =~= s0.tail_filters@); }
//@after `sort_by_key_desc(&mut self.filters);`
            proof {
                assert forall|p: int| #[trigger] self.kept(total, p) == s0.kept(total, p) by {
                    lemma_perm_covers(f1, self.filters@, total, p);
                    assert(!any_covers(self.tail_filters@, total, p));
                }
            }
//@before `let mut last_scanned`
        let ghost s1 = *self;
        proof {
            assert(s1.wf());
            assert forall|p: int| #[trigger] keep(p) == s1.kept(total, p) by {}
            assert forall|p: int| offset <= p < offset + scan_upto implies !any_covers(s1.tail_filters@, total, p) by {
                if any_covers(s1.tail_filters@, total, p) {
                    let i = choose|i: int| 0 <= i < s1.tail_filters@.len() && #[trigger] s1.tail_filters@[i].covers(total, p);
                    let f = s1.tail_filters@[i];
                    assert(!f.left());
                }
            }
            assert(stream@.subrange(0, 0) =~= Seq::<u8>::empty());
            assert(v@ =~= v0 + picked(stream@.subrange(0, 0), offset as int, keep));
        }
//@beforeloop 2
        let ghost mut gf = self.filters@;
//@loop 2
            invariant_except_break
                gf == self.filters@,
            invariant
                self.wf(),
                self.tail_filters@ == s1.tail_filters@,
                self.tail_margin == s1.tail_margin,
                last_scanned <= scan_upto,
                v@ =~= v0 + picked(stream@.subrange(0, last_scanned as int), offset as int, keep),
                forall|p: int| offset + last_scanned <= p < total ==> #[trigger] s1.kept(total, p) == self.kept(total, p),
            ensures
                self.wf(),
                self.tail_filters@ == s1.tail_filters@,
                self.tail_margin == s1.tail_margin,
                last_scanned <= scan_upto,
                v@ =~= v0 + picked(stream@.subrange(0, last_scanned as int), offset as int, keep),
                forall|p: int| offset + scan_upto <= p < total ==> #[trigger] s1.kept(total, p) == self.kept(total, p),
                forall|p: int| offset + last_scanned <= p < offset + scan_upto ==> !#[trigger] s1.kept(total, p),
            decreases self.filters.len()
//@loopstart 2
            let ghost f2 = self.filters@.push(filter);
            let ghost l0 = last_scanned as int;
            proof {
                assert(f2 =~= gf);
                gf = self.filters@;
                assert(all_left(f2));
                assert(f2[f2.len() - 1].left());
                assert(filter.left());
                assert forall|p: int| #[trigger] any_covers(f2, total, p) ==
                    (any_covers(self.filters@, total, p) || filter.covers(total, p)) by { lemma_push_covers(self.filters@, filter, total, p); }
            }
//@after `last_scanned = end;`
            proof {
                assert forall|p: int| offset + l0 <= p < offset + start implies !#[trigger] keep(p) by {
                    assert(s1.kept(total, p) == any_covers(f2, total, p));
                    assert(filter.lo(0) > p);
                    if any_covers(f2, total, p) {
                        let i = choose|i: int| 0 <= i < f2.len() && #[trigger] f2[i].covers(total, p);
                        assert(i == f2.len() - 1 || key_le(f2[f2.len() - 1], f2[i]));
                        assert(f2[i].left());
                        assert(false);
                    }
                }
                assert forall|p: int| offset + start <= p < offset + end implies #[trigger] keep(p) by {
                    assert(filter.covers(0, p));
                    assert(filter.covers(total, p));
                    assert(s1.kept(total, p) == any_covers(f2, total, p));
                }
                lemma_picked_step(stream@, offset as int, keep, l0, start as int, end as int);
                assert forall|p: int| offset + end <= p < total && !(!is_eof && range.end > scan_upto) implies
                    #[trigger] s1.kept(total, p) == self.kept(total, p) by {
                    assert(!filter.covers(0, p));
                    assert(filter.covers(total, p) == filter.covers(0, p));
                }
            }
//@after `self.filters.push(filter);`
                proof {
                    assert(self.filters@ =~= f2);
                }
//@exit
//@tail `Ok(scan_upto)`
        proof {
            assert forall|p: int| offset + last_scanned <= p < offset + scan_upto implies !#[trigger] keep(p) by {}
            lemma_picked_step(stream@, offset as int, keep, last_scanned as int, scan_upto as int, scan_upto as int);
        }
//@end
}

//@struct src/byte/cut.rs CutStream

impl CutStream {
//@fn src/byte/cut.rs CutStream::new
//@spec
    requires sok(src), src.need() + MAXOFF + 32 * MAXLEN <= MAXREQ
    ensures
        res matches Ok(c) ==> {
            &&& c.wf()
            // the bytes whose position is in one of the ranges
            &&& c.rest() =~= picked(src.rest(), 0, |p: int| any_covers(ranges_of(exprs@), src.rest().len() as int, p))
        }
//@entry
        let ghost s = src.rest();
        let ghost keep = |p: int| any_covers(ranges_of(exprs@), s.len() as int, p);
//@tail `Ok`
        proof {
            if ret is Ok {
                let c = ret->Ok_0;
                lemma_picked_ext(s, 0, c.cutter.keep(s.len() as int), keep);
                lemma_picked_len(s, 0, keep);
                assert(c.rest() =~= picked(s, 0, keep));
            }
        }
//@end
}

struct CutEnv<'a> {
    src: &'a mut Box<dyn ByteStream>,
    src_consumed: &'a mut usize,
    cutter: &'a mut Cutter,
    total: Ghost<int>,
    room: Ghost<nat>,
}

// what the pending ranges keep of the rest of the source
spec fn cut_rest(src: Box<dyn ByteStream>, at: int, cutter: Cutter) -> Seq<u8> {
    picked(src.rest(), at, cutter.keep(at + src.rest().len()))
}

spec fn cut_ok(src: Box<dyn ByteStream>, at: int, cutter: Cutter) -> bool {
    &&& sok(src)
    &&& cutter.wf()
    &&& 0 <= at
    &&& at + src.rest().len() <= MAXLEN
}

impl<'a> Filler for CutEnv<'a> {
    spec fn wf(&self, buf: Seq<u8>) -> bool {
        &&& cut_ok(*self.src, *self.src_consumed as int, *self.cutter)
        &&& *self.src_consumed + self.src.rest().len() == self.total@
        &&& self.src.need() + self.cutter.tail_margin + 1 == self.room@
    }
    spec fn wf_end(&self, buf: Seq<u8>) -> bool { self.wf(buf) }
    spec fn rest(&self) -> Seq<u8> { cut_rest(*self.src, *self.src_consumed as int, *self.cutter) }
    spec fn need(&self) -> nat { self.room@ }
    type Fin = (Box<dyn ByteStream>, usize, Cutter, int, nat);
    #[verifier::prophetic]
    spec fn fin(&self) -> Self::Fin { (*final(self.src), *final(self.src_consumed), *final(self.cutter), self.total@, self.room@) }

//@closure src/byte/cut.rs ByteStream for CutStream::fill_buf 1
//@sig fn call(&mut self, request: usize, buf: &mut Vec<u8>) -> Result<bool>
//@subst `self.src_consumed` => `(*self.src_consumed)` *
//@subst `stream, buf)` => `stream, buf, Ghost(self.total@))`
//@entry
        let ghost s0 = self.src.rest();
        let ghost c0 = *self.cutter;
        let ghost at0 = *self.src_consumed as int;
        let ghost total = self.total@;
//@after `self.src.consume(scanned);`
        proof {
            let n = scanned as int;
            let keep = c0.keep(total);
            assert(s0 =~= s0.subrange(0, n) + s0.skip(n));
            lemma_picked_add(s0.subrange(0, n), s0.skip(n), at0, keep);
            lemma_picked_ext(s0.skip(n), at0 + n, keep, self.cutter.keep(total));
            assert(stream@.subrange(0, bytes as int).subrange(0, n) =~= stream@.subrange(0, n));
            assert(s0.subrange(0, bytes as int).subrange(0, n) =~= s0.subrange(0, n));
            if self.cutter.filters.len() == 0 && self.cutter.tail_filters.len() == 0 {
                lemma_picked_none(s0.skip(n), at0 + n, self.cutter.keep(total));
            }
            if is_eof { assert(s0.skip(n).len() == 0); }
        }
//@end
}

impl ByteStream for CutStream {
    spec fn wf(&self) -> bool {
        &&& self.buf.wf()
        &&& self.buf.align == 1
        &&& cut_ok(self.src, self.src_consumed as int, self.cutter)
        &&& !self.buf.is_eof ==> self.buf.end() + cut_rest(self.src, self.src_consumed as int, self.cutter).len() <= MAXLEN
        &&& self.src.need() + self.cutter.tail_margin + 16 * MAXLEN + 128 <= MAXREQ
    }
    spec fn rest(&self) -> Seq<u8> {
        if self.buf.is_eof { self.buf.content() }
        else { self.buf.content() + cut_rest(self.src, self.src_consumed as int, self.cutter) }
    }
    spec fn ended(&self) -> bool { self.buf.is_eof }
    spec fn avail(&self) -> int { self.buf.content().len() as int }
    spec fn nl(&self) -> bool { false }
    spec fn filled(&self) -> bool { true }
    spec fn need(&self) -> nat { (self.src.need() + self.cutter.tail_margin + 2) as nat }

//@fn src/byte/cut.rs ByteStream for CutStream::fill_buf
//@closurearg 1 => `&mut env`
//@entry
        let ghost total = self.src_consumed + self.src.rest().len();
        let ghost room = (self.src.need() + self.cutter.tail_margin + 1) as nat;
        let ghost r0 = self.rest();
        let mut env = CutEnv { src: &mut self.src, src_consumed: &mut self.src_consumed, cutter: &mut self.cutter, total: Ghost(total), room: Ghost(room) };
        proof {
            lemma_picked_len(env.src.rest(), *env.src_consumed as int, env.cutter.keep(total));
            assert(forall|t: int| t >= 0 ==> #[trigger] pad_len(t, 1) == 0);
            assert(self.buf.padding(env.rest()) =~= Seq::<u8>::empty());
            assert(self.buf.future(env.rest()) =~= r0);
        }
//@tail `self.buf.fill_buf(`
        proof {
            if let Ok((e, n)) = ret {
                let rest = cut_rest(self.src, self.src_consumed as int, self.cutter);
                assert(self.buf.padding(rest) =~= Seq::<u8>::empty());
                assert(self.buf.future(rest) =~= r0);
            }
        }
//@end
//@fn src/byte/cut.rs ByteStream for CutStream::as_slice
//@end
//@fn src/byte/cut.rs ByteStream for CutStream::consume
//@end
}
