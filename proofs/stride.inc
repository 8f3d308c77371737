// ---- slices at a constant stride
pub open spec fn minus(x: int, y: int) -> int { if x >= y { x - y } else { 0 } }
spec fn max0(x: int) -> int { if x >= 0 { x } else { 0 } }
// slice k of a row that begins at a, clipped to the stream
spec fn row_at(a: int, p: int, span: int, total: int, k: int) -> Segment {
    let s = a + k * p;
    Segment { pos: max0(s) as usize, len: ((if s + span < total { s + span } else { total }) - max0(s)) as usize }
}
// slices that have t bytes from their begin on
spec fn row_len(a: int, p: int, t: int, total: int) -> int { if a + t > total { 0 } else { (total - a - t) / p + 1 } }
spec fn row(a: int, p: int, span: int, t: int, total: int) -> Seq<Segment> { Seq::new(row_len(a, p, t, total) as nat, |k: int| row_at(a, p, span, total, k)) }

proof fn lemma_step(p: int, k: int)
    ensures (k + 1) * p == k * p + p, 0 * p == 0, (k - 1) * p == k * p - p
{
    assert((k + 1) * p == k * p + p && (k - 1) * p == k * p - p) by (nonlinear_arith);
}
proof fn lemma_mono(p: int, i: int, j: int)
    requires 0 < p, i <= j
    ensures i * p <= j * p, i < j ==> i * p + p <= j * p
{
    assert(i * p <= j * p) by (nonlinear_arith) requires 0 < p, i <= j;
    if i < j { assert(i * p + p <= j * p) by (nonlinear_arith) requires 0 < p, i + 1 <= j; }
}
proof fn lemma_row_len(a: int, p: int, t: int, total: int)
    requires 0 < p
    ensures
        row_len(a, p, t, total) >= 0,
        forall|k: int| 0 <= k ==> (k < row_len(a, p, t, total) <==> a + #[trigger] (k * p) + t <= total),
{
    let n = row_len(a, p, t, total);
    if a + t > total {
        assert forall|k: int| 0 <= k implies a + #[trigger] (k * p) + t > total by { lemma_mono(p, 0, k); }
    } else {
        let x = total - a - t;
        assert(x / p >= 0 && (x / p) * p <= x < (x / p) * p + p) by (nonlinear_arith) requires x >= 0, p > 0;
        assert forall|k: int| 0 <= k implies (k < n <==> a + #[trigger] (k * p) + t <= total) by {
            if k < n { lemma_mono(p, k, x / p); } else { lemma_mono(p, x / p, k); }
        }
    }
}
proof fn lemma_row_len_is(a: int, p: int, t: int, total: int, n: int)
    requires 0 < p, 0 <= n, n > 0 ==> a + (n - 1) * p + t <= total, a + n * p + t > total
    ensures row_len(a, p, t, total) == n
{
    lemma_row_len(a, p, t, total);
    let m = row_len(a, p, t, total);
    assert(!(n < m)) by { assert(n < m <==> a + n * p + t <= total); }
    if n > 0 { assert(n - 1 < m <==> a + (n - 1) * p + t <= total); }
}
// more bytes, and not more needed: not less
proof fn lemma_row_len_mono(a: int, p: int, t: int, total: int, t2: int, total2: int)
    requires 0 < p, t2 <= t, total <= total2
    ensures row_len(a, p, t, total) <= row_len(a, p, t2, total2)
{
    lemma_row_len(a, p, t, total);
    lemma_row_len(a, p, t2, total2);
    let (m, n) = (row_len(a, p, t, total), row_len(a, p, t2, total2));
    if n < m { assert(a + n * p + t <= total); }
}
spec fn row_ok(a: int, p: int, span: int, t: int) -> bool { 0 < p && span >= 1 && a + span >= 1 && a + t >= 1 && t >= 1 }
proof fn lemma_row(a: int, p: int, span: int, t: int, total: int)
    requires row_ok(a, p, span, t), 0 <= total <= MAXLEN
    ensures
        inorder(row(a, p, span, t, total)),
        within(row(a, p, span, t, total), total),
        row(a, p, span, t, total).len() == row_len(a, p, t, total),
        // none is empty
        forall|k: int| 0 <= k < row(a, p, span, t, total).len() ==> {
            let x = #[trigger] row(a, p, span, t, total)[k];
            &&& x.pos == max0(a + k * p) && x.pos < total && x.len > 0
            &&& x.end() == (if a + k * p + span < total { a + k * p + span } else { total })
        },
{
    let r = row(a, p, span, t, total);
    lemma_row_len(a, p, t, total);
    assert forall|k: int| 0 <= k < r.len() implies {
            let x = #[trigger] r[k];
            &&& x.pos == max0(a + k * p) && x.pos < total && x.len > 0
            &&& x.end() == (if a + k * p + span < total { a + k * p + span } else { total })
        } by {
        assert(a + k * p + t <= total);
        lemma_mono(p, 0, k);
        lemma_step(p, 0);
        assert(r[k] == row_at(a, p, span, total, k));
    }
    assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).pos <= (#[trigger] r[j]).pos by { lemma_mono(p, i, j); }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).end() <= total by { }
}
// the first b bytes are gone, and c slices with them
proof fn lemma_row_skip(a: int, p: int, span: int, t: int, total: int, b: int, c: int, a2: int)
    requires
        row_ok(a, p, span, t), 0 <= b <= total <= MAXLEN, 0 <= c <= row_len(a, p, t, total),
        b == 0 ==> c == 0 && (a2 == a || total == 0 && a2 >= 0),
        b > 0 ==> a2 >= 0 && (a2 >= a - b + c * p || b == total),
        b > 0 && c > 0 ==> a + (c - 1) * p < b,
        // nothing is left where a2 is not the begin of slice c
        b > 0 && a2 != a - b + c * p ==> c == row_len(a, p, t, total),
        b > 0 && c < row_len(a, p, t, total) ==> a + c * p >= b,
    ensures
        below(row(a, p, span, t, total), b) == c,
        row(a2, p, span, t, total - b) =~= advance(row(a, p, span, t, total), b),
        row_len(a2, p, t, total - b) == row_len(a, p, t, total) - c,
        row_ok(a2, p, span, t),
{
    let r = row(a, p, span, t, total);
    let n = row_len(a, p, t, total);
    lemma_row(a, p, span, t, total);
    lemma_row_len(a, p, t, total);
    if c > 0 { assert(r[c - 1].pos == max0(a + (c - 1) * p)); }
    if c < n { assert(r[c].pos == max0(a + c * p)); }
    lemma_below_is(r, b, c);
    if b == 0 && a2 == a {
        assert(advance(r, 0) =~= r);
    } else if b == total {
        assert(n - c == 0) by { if c < n { assert(r[c].pos < total); } }
        lemma_step(p, 0);
        lemma_row_len_is(a2, p, t, 0, 0);
    } else {
        let m = n - c;
        if m > 0 {
            assert(a2 == a - b + c * p);
            assert(m * p == n * p - c * p && (m - 1) * p == (n - 1) * p - c * p) by (nonlinear_arith) requires m == n - c;
            assert(n - 1 < n);
            assert(a + (n - 1) * p + t <= total);
            assert(!(n < n));
            assert(a + n * p + t > total);
        } else {
            assert(a + n * p + t > total) by { assert(!(n < n)); }
            lemma_step(p, 0);
        }
        lemma_row_len_is(a2, p, t, total - b, m);
        let (x, y) = (row(a2, p, span, t, total - b), advance(r, b));
        assert forall|k: int| 0 <= k < m implies #[trigger] x[k] == y[k] by {
            assert((k + c) * p == k * p + c * p) by (nonlinear_arith);
            assert(y[k] == (Segment { pos: (r[k + c].pos - b) as usize, len: r[k + c].len }));
            lemma_mono(p, 0, k);
            lemma_row(a2, p, span, t, total - b);
            assert(r[k + c].pos >= b);
        }
    }
}
// x = y where both are in [0, p) and apart by a multiple of p
proof fn lemma_same_phase(x: int, y: int, p: int, m: int)
    requires 0 <= x < p, 0 <= y < p, x - y == m * p
    ensures x == y
{
    assert(m == 0) by (nonlinear_arith) requires 0 <= x < p, 0 <= y < p, x - y == m * p;
}
proof fn lemma_divmod(x: int, p: int)
    requires 0 <= x, 0 < p
    ensures x == (x / p) * p + x % p, 0 <= x % p < p, 0 <= x / p
{
    assert(x == (x / p) * p + x % p && 0 <= x % p < p && 0 <= x / p) by (nonlinear_arith) requires 0 <= x, 0 < p;
}
// the number of slices that begin before x
proof fn lemma_ceil(x: int, p: int)
    requires 0 <= x, 0 < p
    ensures 0 <= (x + p - 1) / p, x <= ((x + p - 1) / p) * p < x + p, (x + p - 1) / p <= x, ((x + p - 1) / p > 0) == (x > 0)
{
    lemma_divmod(x + p - 1, p);
    let c = (x + p - 1) / p;
    assert(c <= x) by (nonlinear_arith) requires c * p <= x + p - 1, p >= 1, c >= 0, x >= 0;
    assert(c > 0 ==> x > 0) by (nonlinear_arith) requires c * p < x + p, p > 0, c >= 0, x >= 0;
    assert(x > 0 ==> c > 0) by (nonlinear_arith) requires c * p >= x, p > 0, c >= 0;
}
// std: isize::rem_euclid
#[verifier::external_body]
fn rem_euclid(x: isize, p: isize) -> (res: isize)
    requires p > 0
    ensures res == x as int % p as int
{ x.rem_euclid(p) }

#[derive(Clone, Copy)]
//@struct src/segment/stride.rs ConstSlicerParams
//@struct src/segment/stride.rs InitState
//@struct src/segment/stride.rs Phase
//@struct src/segment/stride.rs ConstSegments

spec fn mult(x: int, p: int) -> bool { exists|q: int| q >= 0 && x == #[trigger] (q * p) }

impl ConstSegments {
    // where the next slice begins, if it is not clipped
    spec fn a(&self) -> int { self.phase.curr - self.init_state.phase_offset }
    spec fn p(&self) -> int { self.pitch as int }
    spec fn n(&self) -> int { self.span as int }
    spec fn t(&self) -> int { self.tail_offset_margin as int }
    // bytes from the begin of a slice on, without which it is not exposed before the end
    spec fn x(&self) -> int { self.span + self.tail_reserved_bytes }
    spec fn same(&self, o: &ConstSegments) -> bool { self.pitch == o.pitch && self.span == o.span && self.tail_offset_margin == o.tail_offset_margin }
    spec fn base(&self) -> bool {
        &&& row_ok(self.a(), self.p(), self.n(), self.t())
        &&& self.open_ended == (false, false)
        &&& 0 < self.span <= 4 * MAXLEN && self.pitch <= 2 * MAXLEN && self.tail_offset_margin <= 4 * MAXLEN
        &&& self.tail_reserved_bytes == minus(self.t(), self.n()) + self.pitch
        &&& self.init_state.min_bytes_to_escape <= 4 * MAXLEN
        &&& self.phase.curr <= 4 * MAXLEN
        &&& self.init_state.phase_offset <= 6 * MAXLEN
        &&& mult(self.init_state.phase_offset as int, self.p())
        &&& self.init_state.phase_offset > 0 ==> self.phase.curr < self.pitch
    }
    // the slices that are calculated before the end; those before the head are clipped
    spec fn row_so_far(&self) -> bool {
        &&& forall|k: int| 0 <= k < self.segments.len() ==> (#[trigger] self.segments@[k]).pos == max0(self.a() + k * self.p()) && self.segments@[k].end() == self.a() + k * self.p() + self.n()
        &&& self.a() + self.segments.len() * self.p() + self.n() <= 8 * MAXLEN
    }
    spec fn wf(&self) -> bool {
        &&& self.base()
        &&& !self.is_eof ==> self.row_so_far()
        &&& !self.is_eof && self.init_state.phase_offset > 0 ==> self.init_state.min_bytes_to_escape > 0
    }
    // as of the last fill of `len` bytes
    spec fn lent(&self, len: int) -> bool {
        &&& self.in_lend.1 <= self.segments.len()
        &&& self.is_eof ==> self.in_lend.0 == len && self.segments@ =~= row(self.a(), self.p(), self.n(), self.t(), len) && self.in_lend.1 == self.segments.len()
        &&& !self.is_eof ==> self.in_lend.1 == row_len(self.a(), self.p(), self.x(), len) && self.in_lend.0 == self.front(self.in_lend.1 as int, len)
        &&& self.is_eof && len > 0 && self.init_state.phase_offset > 0 ==> self.init_state.min_bytes_to_escape > 0
        &&& len <= MAXLEN
    }
    // what may be consumed: up to the first slice that is not exposed
    spec fn front(&self, k: int, len: int) -> int { let s = max0(self.a() + k * self.p()); if s < len { s } else { len } }

//@fn src/segment/stride.rs ConstSegments::new
//@subst `margin.0.rem_euclid(pitch as isize)` => `rem_euclid(margin.0, pitch as isize)`
//@spec
    requires
        open_ended == (false, false),
        0 < pitch <= 2 * MAXLEN, 0 < span <= 3 * MAXLEN, -MAXLEN * 4 <= margin.0 <= MAXLEN, -MAXLEN * 4 <= margin.1 <= MAXLEN,
        margin.0 + span >= 1, margin.1 + span >= 1, margin.0 + margin.1 + span >= 1,
    ensures
        res.wf(), res.a() == margin.0, res.pitch == pitch, res.span == span, res.t() == margin.1 + span,
        res.segments.len() == 0, !res.is_eof,
//@before `ConstSegments {`
        proof {
            let (m, p) = (margin.0 as int, pitch as int);
            lemma_step(p, 0);
            if m < 0 {
                assert(m == (m / p) * p + m % p && 0 <= m % p < p) by (nonlinear_arith) requires p > 0;
                assert(m / p <= 0) by (nonlinear_arith) requires m < 0, m == (m / p) * p + m % p, 0 <= m % p, p > 0;
                let q = -(m / p);
                assert(q * p == -((m / p) * p)) by (nonlinear_arith) requires q == -(m / p);
                assert(q >= 0 && phase_offset == q * p);
            } else { assert(phase_offset == 0 * p); }
            assert(mult(phase_offset as int, p));
        }
//@end
//@fn src/segment/stride.rs ConstSegments::count_segments
//@spec
    requires self.pitch > 0, self.pitch <= 2 * MAXLEN, len <= 32 * MAXLEN
    ensures res == (len + self.pitch - 1) / (self.pitch as int), len <= res * self.pitch < len + self.pitch, res <= len, (res > 0) == (len > 0)
//@entry
        proof { lemma_ceil(len as int, self.pitch as int); }
//@end
//@fn src/segment/stride.rs ConstSegments::min_fill_len
//@spec
    requires self.base()
    ensures res <= 16 * MAXLEN, res >= 1
//@end
//@fn src/segment/stride.rs ConstSegments::get_next_tail
//@spec
    requires old(self).base(), old(self).row_so_far() || old(self).segments.len() == 0
    ensures *final(self) == *old(self), res == old(self).a() + old(self).segments.len() * old(self).p() + old(self).n(), res >= 1
//@entry
        proof {
            lemma_step(self.p(), self.segments.len() as int);
            lemma_mono(self.p(), 0, self.segments.len() as int);
            if self.segments.len() > 0 { assert(self.segments@[self.segments.len() - 1].end() == self.a() + (self.segments.len() - 1) * self.p() + self.n()); }
        }
//@end
//@fn src/segment/stride.rs ConstSegments::update_lend_state
//@spec
    requires next_tail <= 16 * MAXLEN
    ensures
        res matches Ok(r) && r == final(self).in_lend && *final(self) == (ConstSegments { in_lend: r, ..*old(self) }) && r.1 == count
            && r.0 == (if minus(next_tail as int, old(self).n()) < len { minus(next_tail as int, old(self).n()) } else { len as int }),
//@end
//@fn src/segment/stride.rs ConstSegments::patch_head
//@subst `let first = self.segments.first_mut().unwrap(); first.len += first.pos; first.pos = 0;` => `unreached_panic();`
//@spec
    requires !old(self).open_ended.0
    ensures *final(self) == *old(self)
//@end
//@fn src/segment/stride.rs ConstSegments::patch_tail
//@subst `let last = self.segments.last_mut().unwrap(); last.len = len - last.pos;` => `unreached_panic();`
//@spec
    requires !old(self).open_ended.1
    ensures *final(self) == *old(self)
//@end
//@fn src/segment/stride.rs ConstSegments::extend_segments_with_clip
//@spec
    requires old(self).base(), old(self).segments.len() == 0, len <= MAXLEN
    ensures
        res matches Ok(r) && r == final(self).in_lend && *final(self) == (ConstSegments { in_lend: r, segments: final(self).segments, ..*old(self) })
            && r.0 == len && r.1 == final(self).segments.len()
            && final(self).segments@ =~= row(old(self).a(), old(self).p(), old(self).n(), old(self).t(), len as int),
//@entry
        let ghost s0 = *self;
        proof { lemma_step(self.p(), 0); }
//@loop 1
            invariant
                s0.base(), *self == (ConstSegments { segments: self.segments, ..s0 }), len <= MAXLEN,
                next_tail == s0.a() + self.segments.len() * s0.p() + s0.n(), next_tail >= 1, next_tail <= 16 * MAXLEN,
                self.segments.len() > 0 ==> s0.a() + (self.segments.len() - 1) * s0.p() + s0.t() <= len,
                forall|k: int| 0 <= k < self.segments.len() ==> #[trigger] self.segments@[k] == row_at(s0.a(), s0.p(), s0.n(), len as int, k),
            decreases len + s0.n() + s0.p() - next_tail
//@loopstart 1
            proof {
                let k = self.segments.len() as int;
                lemma_step(s0.p(), k);
                lemma_mono(s0.p(), 0, k);
            }
//@before `self.patch_head()`
        proof { lemma_row_len_is(s0.a(), s0.p(), s0.t(), len as int, self.segments.len() as int); }
//@end
//@fn src/segment/stride.rs ConstSegments::extend_segments
//@spec
    requires
        old(self).base(), old(self).row_so_far(), len <= MAXLEN,
        next_tail == old(self).a() + old(self).segments.len() * old(self).p() + old(self).n(),
        next_tail + old(self).tail_reserved_bytes <= len,
    ensures
        res matches Ok(r) && r == final(self).in_lend && *final(self) == (ConstSegments { in_lend: r, segments: final(self).segments, ..*old(self) })
            && final(self).row_so_far()
            && r.1 == final(self).segments.len()
            && r.1 == row_len(old(self).a(), old(self).p(), old(self).x(), len as int)
            && r.0 == old(self).front(r.1 as int, len as int),
//@entry
        let ghost s0 = *self;
        proof { lemma_step(self.p(), self.segments.len() as int); lemma_mono(self.p(), 0, self.segments.len() as int); }
//@loop 1
            invariant
                s0.base(), *self == (ConstSegments { segments: self.segments, ..s0 }), len <= MAXLEN,
                self.row_so_far(),
                next_tail == s0.a() + self.segments.len() * s0.p() + s0.n(), next_tail >= 1,
                self.segments.len() > 0 && self.segments.len() > s0.segments.len() ==> s0.a() + (self.segments.len() - 1) * s0.p() + s0.x() <= len,
                self.segments.len() >= s0.segments.len(),
                self.segments.len() == s0.segments.len() ==> next_tail + self.tail_reserved_bytes <= len,
            decreases len + s0.p() - next_tail
//@loopstart 1
            proof {
                let k = self.segments.len() as int;
                lemma_step(s0.p(), k);
                lemma_mono(s0.p(), 0, k);
            }
//@before `self.patch_head()`
        proof { lemma_row_len_is(s0.a(), s0.p(), s0.x(), len as int, self.segments.len() as int); }
//@end
//@fn src/segment/stride.rs ConstSegments::fill_segment_buf
//@spec
    requires
        old(self).wf(), len <= MAXLEN, old(self).is_eof ==> is_eof,
        len > 0 && old(self).init_state.phase_offset > 0 ==> old(self).init_state.min_bytes_to_escape > 0,
    ensures
        res matches Ok(r) && r == final(self).in_lend && final(self).wf() && final(self).lent(len as int) && final(self).same(old(self))
            && final(self).a() == old(self).a() && final(self).is_eof == is_eof,
//@entry
        let ghost s0 = *self;
//@before `let next_tail = self.get_next_tail();`
        proof { lemma_step(self.p(), self.segments.len() as int); }
//@before `if next_tail + self.tail_reserved_bytes <= len + self.pitch`
        let ghost v = self.segments.len() as int;
        proof {
            lemma_step(self.p(), v);
            if next_tail + self.tail_reserved_bytes <= len + self.pitch { lemma_row_len_is(self.a(), self.p(), self.x(), len as int, v); }
        }
//@before `let n_extra = min_usize`
        let ghost m = n_extra as int;
//@before `let next_tail = next_tail - n_extra`
        proof {
            let p = self.p();
            let x = next_tail + self.tail_reserved_bytes - len - p;
            let c = v - n_extra;
            assert(n_extra * p <= m * p) by { lemma_mono(p, n_extra as int, m); }
            assert(c * p == v * p - n_extra * p && (c - 1) * p == c * p - p) by (nonlinear_arith) requires c == v - n_extra;
            lemma_mono(p, 0, c);
            lemma_mono(p, 0, n_extra as int);
            if c > 0 { assert(n_extra == m); }
            lemma_row_len_is(self.a(), p, self.x(), len as int, c);
        }
//@end
//@fn src/segment/stride.rs ConstSegments::as_slice
//@subst `&self.segments[..self.in_lend.1]` => `slice_subrange(self.segments.as_slice(), 0, self.in_lend.1)`
//@spec
    requires self.in_lend.1 <= self.segments.len()
    ensures res@ =~= self.segments@.take(self.in_lend.1 as int)
//@end
//@fn src/segment/stride.rs ConstSegments::update_phase
//@spec
    requires
        0 < old(self).pitch <= 2 * MAXLEN, old(self).phase.prev == old(self).phase.curr, old(self).phase.curr <= 4 * MAXLEN,
        bytes <= MAXLEN, phase_offset <= 6 * MAXLEN, mult(phase_offset as int, old(self).p()),
        phase_offset > 0 ==> old(self).phase.curr < old(self).pitch,
        bytes > 0 || phase_offset == 0,
        count <= ceil_of(minus(bytes + phase_offset, old(self).phase.curr as int), old(self).p()),
    ensures
        ({
            let (a, a2, p) = (old(self).phase.curr - phase_offset, final(self).phase.curr as int, old(self).p());
            &&& *final(self) == (ConstSegments { phase: Phase { curr: final(self).phase.curr, prev: old(self).phase.prev }, ..*old(self) })
            &&& res.0 <= bytes && res.1 <= count && (res.0 == 0) == (bytes == 0)
            &&& a2 >= a - res.0 + res.1 * p
            &&& a2 == a - res.0 + res.1 * p || res.1 == count && count < ceil_of(minus(bytes + phase_offset, old(self).phase.curr as int), p)
            &&& res.1 > 0 ==> a + (res.1 - 1) * p < res.0
            &&& a2 <= old(self).phase.curr || a2 <= p
        })
//@entry
        let ghost p = self.p();
        let ghost cur = self.phase.curr as int;
        let ghost po = phase_offset as int;
        let ghost y = minus(bytes + po, cur);
        let ghost ct = ceil_of(y, p);
        let ghost a = cur - po;
        let ghost q = choose|q: int| q >= 0 && po == #[trigger] (q * p);
        proof {
            lemma_ceil(y, p);
            lemma_step(p, ct);
            lemma_step(p, count as int);
            lemma_step(p, 0);
            lemma_mono(p, 0, count as int);
            lemma_mono(p, count as int, ct);
            if q >= 1 { lemma_mono(p, 1, q); assert(1 * p == p); }
            if po == 0 { assert(q == 0) by (nonlinear_arith) requires q * p == 0, p > 0; }
            if bytes > cur { lemma_divmod(bytes - cur, p); }
        }
//@before `let truncated =`
        proof {
            // the begin of the next slice
            let x = phase as int;
            let z = a - bytes + ct * p;
            if bytes <= cur {
                if po > 0 {
                    assert(y == bytes + po - cur);
                    assert(x - z == (q - ct) * p) by (nonlinear_arith) requires x == cur - bytes, z == cur - po - bytes + ct * p, po == q * p;
                    lemma_same_phase(x, z, p, q - ct);
                }
            } else {
                let d = (bytes - cur) / p;
                let e = (bytes - cur) % p;
                let m = if e == 0 { d } else { d + 1 };
                lemma_step(p, d);
                assert(x == cur - bytes + m * p);
                assert(x - z == (m + q - ct) * p) by (nonlinear_arith) requires x == cur - bytes + m * p, z == cur - po - bytes + ct * p, po == q * p;
                lemma_same_phase(x, z, p, m + q - ct);
            }
            assert(x == z);
        }
//@before `let tail =`
        proof {
            lemma_mono(p, 0, truncated as int);
            lemma_mono(p, truncated as int, count as int);
            lemma_step(p, truncated as int);
        }
//@end
//@fn src/segment/stride.rs ConstSegments::consume
//@subst `std::mem::replace(&mut self.init_state.phase_offset, 0)` => `replace_usize(&mut self.init_state.phase_offset, 0)`
//@spec
    requires
        old(self).wf(), old(self).in_lend.0 <= MAXLEN, bytes <= old(self).in_lend.0,
        exists|len: int| old(self).lent(len),
    ensures
        res matches Ok((b, c)) && {
            let (a, a2, p) = (old(self).a(), final(self).a(), old(self).p());
            &&& final(self).wf() && final(self).same(old(self)) && final(self).is_eof == old(self).is_eof
            &&& b <= bytes && c <= old(self).in_lend.1
            &&& b == 0 ==> c == 0 && (a2 == a || old(self).is_eof && old(self).in_lend.0 == 0 && a2 >= 0)
            &&& b > 0 ==> a2 >= 0 && (a2 >= a - b + c * p || old(self).is_eof && b == old(self).in_lend.0)
            &&& b > 0 && c > 0 ==> a + (c - 1) * p < b
            &&& b > 0 && a2 != a - b + c * p ==> old(self).is_eof && c == old(self).in_lend.1
            &&& final(self).init_state.phase_offset == 0 || final(self).init_state == old(self).init_state
        }
//@entry
        let ghost s0 = *self;
        let ghost len = choose|len: int| old(self).lent(len);
        proof {
            lemma_row(self.a(), self.p(), self.n(), self.t(), len);
            lemma_row_len(self.a(), self.p(), self.t(), len);
            lemma_row_len(self.a(), self.p(), self.x(), len);
            lemma_step(self.p(), 0);
            lemma_step(self.p(), self.in_lend.1 as int);
            if self.in_lend.1 > 0 { let k = self.in_lend.1 - 1; assert(self.is_eof ==> self.a() + k * self.p() + self.t() <= len); }
        }
//@before `let count = self.count_segments`
        let ghost ct = ceil_of(minus(bytes + phase_offset, self.phase.curr as int), self.p());
//@before `let (bytes, count) = self.update_phase`
        proof {
            if !self.is_eof {
                let k = s0.in_lend.1 as int;
                if ct > k { lemma_mono(self.p(), k + 1, ct); lemma_step(self.p(), k); lemma_step(self.p(), ct); }
                assert(ct <= k);
            }
        }
//@end
}
spec fn ceil_of(x: int, p: int) -> int { (x + p - 1) / p }
fn replace_usize(x: &mut usize, v: usize) -> (res: usize)
    ensures res == *old(x), *final(x) == v
{ let r = *x; *x = v; r }

// widths and margins like the lengths of streams
spec fn moderate(m: SegmentMapper, n: int) -> bool { n <= MAXLEN && -MAXLEN <= m.start.at(0, n) <= MAXLEN && -MAXLEN <= m.end.at(0, n) <= 2 * MAXLEN }
struct Given { known: int, limit: int, avail: int, filled: bool }
//@struct src/segment/stride.rs ConstSlicer `segments: ConstSegments` => `segments: ConstSegments, g: Ghost<Given>`

// ---- what --width cuts: [kn + s, kn + e) of every kn in the stream, clipped to the stream, if it is not empty
spec fn clipped(s: int, e: int, total: int) -> Seq<Segment> {
    let (x, y) = (max0(s), if e < total { e } else { total });
    if x < y { seq![Segment { pos: x as usize, len: (y - x) as usize }] } else { Seq::empty() }
}
spec fn strides(n: int, s: int, e: int, total: int, k: int) -> Seq<Segment>
    decreases (if k * n < total { total - k * n } else { 0 })
    via strides_down
{
    if n <= 0 || k * n >= total { Seq::empty() } else { clipped(k * n + s, k * n + e, total) + strides(n, s, e, total, k + 1) }
}
#[via_fn]
proof fn strides_down(n: int, s: int, e: int, total: int, k: int) { lemma_step(n, k); }
// what ends before the head is not there
proof fn lemma_strides_skip(n: int, s: int, e: int, total: int, k: int, j: int)
    requires 0 < n, 0 <= k <= j, j > 0 ==> (j - 1) * n + e <= 0
    ensures strides(n, s, e, total, k) =~= strides(n, s, e, total, j)
    decreases j - k
{
    if k < j {
        lemma_mono(n, k, j - 1);
        lemma_mono(n, k, j);
        if k * n < total { lemma_strides_skip(n, s, e, total, k + 1, j); }
    }
}
// what begins behind the end is not there
proof fn lemma_strides_none(n: int, s: int, e: int, total: int, k: int)
    requires 0 < n, k * n + s >= total || k * n >= total
    ensures strides(n, s, e, total, k) =~= Seq::empty()
    decreases (if k * n < total { total - k * n } else { 0 })
{
    lemma_step(n, k);
    if k * n < total { lemma_strides_none(n, s, e, total, k + 1); }
}
proof fn lemma_strides_row(n: int, s: int, e: int, total: int, j: int, k: int)
    requires
        0 < n, s < e, 0 <= total <= MAXLEN, 0 <= j <= k, j * n + e >= 1, s >= 0 ==> j == 0,
        k - j <= row_len(s + j * n, n, if s < 0 { 1 - s } else { 1 }, total),
    ensures
        strides(n, s, e, total, k) =~= row(s + j * n, n, e - s, if s < 0 { 1 - s } else { 1 }, total).skip(k - j),
    decreases row_len(s + j * n, n, if s < 0 { 1 - s } else { 1 }, total) - (k - j)
{
    let a = s + j * n;
    let t = if s < 0 { 1 - s } else { 1 };
    let m = row_len(a, n, t, total);
    let i = k - j;
    lemma_row_len(a, n, t, total);
    lemma_mono(n, 0, j);
    lemma_step(n, 0);
    lemma_row(a, n, e - s, t, total);
    assert(i * n == k * n - j * n) by (nonlinear_arith) requires i == k - j;
    assert(i < m <==> a + i * n + t <= total);
    let r = row(a, n, e - s, t, total);
    if i < m {
        lemma_strides_row(n, s, e, total, j, k + 1);
        lemma_mono(n, j, k);
        assert(r.skip(i) =~= seq![r[i]] + r.skip(i + 1));
        assert(clipped(k * n + s, k * n + e, total) =~= seq![r[i]]);
        assert(k * n < total);
    } else {
        assert(r.skip(i) =~= Seq::empty());
        lemma_strides_none(n, s, e, total, k);
    }
}

impl ConstSlicer {
//@fn src/segment/stride.rs ConstSlicer::new
//@spec
    requires
        sok(src),
        exists|m: SegmentMapper, n: int| #[trigger] params_of(m, n, *params) && moderate(m, n),
    ensures
        res.wf(), res.rest() == src.rest(), res.known() == 0, res.limit() == 0,
        forall|m: SegmentMapper, n: int| #[trigger] params_of(m, n, *params) && moderate(m, n) ==> res.segs() =~= strides(n, m.start.at(0, n), m.end.at(0, n), src.rest().len() as int, 0),
//@entry
        proof {
            let total = src.rest().len() as int;
            let q = *params;
            assert forall|m: SegmentMapper, n: int| #[trigger] params_of(m, n, q) && moderate(m, n) implies
                -MAXLEN <= q.margin.0 <= MAXLEN && row(q.margin.0 as int, n, q.span as int, q.margin.1 + q.span, total) =~= strides(n, m.start.at(0, n), m.end.at(0, n), total, 0) && q.margin.0 + q.margin.1 + q.span >= 1
            by {
                let (s, e) = (m.start.at(0, n), m.end.at(0, n));
                let j = choose|j: int| #[trigger] skips(s, n, q.span as int, q.margin.0 as int, j);
                lemma_step(n, j);
                lemma_mono(n, 0, j);
                lemma_step(n, 0);
                lemma_strides_skip(n, s, e, total, 0, j);
                lemma_row_len(q.margin.0 as int, n, q.margin.1 + q.span, total);
                lemma_strides_row(n, s, e, total, j, j);
                let r = row(q.margin.0 as int, n, q.span as int, q.margin.1 + q.span, total);
                assert(r.skip(0) =~= r);
            }
        }
//@end
    spec fn total(&self) -> int { self.src.rest().len() as int }
    spec fn all(&self) -> Seq<Segment> { row(self.segments.a(), self.segments.p(), self.segments.n(), self.segments.t(), self.total()) }
    spec fn need(&self) -> int { if self.segments.is_eof { self.segments.t() } else { self.segments.x() } }
    spec fn base_ok(&self) -> bool {
        let g = self.g@;
        let (a, p) = (self.segments.a(), self.segments.p());
        &&& sok(self.src)
        &&& self.segments.wf()
        &&& self.segments.is_eof ==> self.src.ended() && g.avail == self.total()
        &&& self.total() > 0 && self.segments.init_state.phase_offset > 0 ==> self.segments.init_state.min_bytes_to_escape > 0
        &&& 0 <= g.limit <= g.avail <= self.src.avail()
        &&& 0 <= g.known <= row_len(a, p, self.need(), g.avail)
        &&& !self.segments.is_eof ==> g.limit <= max0(a + g.known * p)
        &&& self.segments.is_eof ==> g.known == row_len(a, p, self.segments.t(), self.total())
        &&& g.filled ==> g.avail == self.src.avail() && self.segments.lent(g.avail) && self.segments.in_lend == (g.limit as usize, g.known as usize)
    }

//@fn src/segment/stride.rs ConstSlicer::from_raw
//@subst `segments: ConstSegments::new(margin, open_ended, pitch, span)` => `segments: ConstSegments::new(margin, open_ended, pitch, span), g: Ghost(Given { known: 0, limit: 0, avail: 0, filled: false })`
//@spec
    requires
        sok(src),
        open_ended == (false, false),
        0 < pitch <= 2 * MAXLEN, 0 < span <= 3 * MAXLEN, -MAXLEN * 4 <= margin.0 <= MAXLEN, -MAXLEN * 4 <= margin.1 <= MAXLEN,
        margin.0 + span >= 1, margin.1 + span >= 1, margin.0 + margin.1 + span >= 1,
    ensures
        res.wf(), res.rest() == src.rest(), res.known() == 0, res.limit() == 0,
        res.segs() =~= row(margin.0 as int, pitch as int, span as int, margin.1 + span, src.rest().len() as int),
//@entry
        proof {
            lemma_row_len(margin.0 as int, pitch as int, span + minus(margin.1 + span, span as int) + pitch, 0);
        }
//@end
}

impl SegmentStream for ConstSlicer {
    spec fn wf(&self) -> bool { self.base_ok() }
    spec fn rest(&self) -> Seq<u8> { self.src.rest() }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { if self.g@.filled { self.src.avail() } else { self.g@.avail } }
    spec fn known(&self) -> int { self.g@.known }
    spec fn limit(&self) -> int { self.g@.limit }
    spec fn reach(&self) -> int { self.g@.avail }
    spec fn filled(&self) -> bool { self.g@.filled && self.src.filled() }
    spec fn full(&self) -> bool { true }
    spec fn ended(&self) -> bool { self.src.ended() }
    spec fn keeps(&self) -> bool { true }

//@fn src/segment/stride.rs SegmentStream for ConstSlicer::fill_segment_buf
//@spec
//@entry
        let ghost s0 = *self;
//@before `let (max_fwd, count)`
        let ghost s1 = *self;
//@tail `Ok`
        proof {
            self.g = Ghost(Given { known: count as int, limit: max_fwd as int, avail: len as int, filled: true });
            let (a, p, t) = (self.segments.a(), self.segments.p(), self.segments.t());
            let r = self.all();
            assert(self.src.rest() == s0.src.rest());
            assert(is_eof ==> self.src.rest().take(len as int) =~= self.src.rest());
            lemma_row(a, p, self.segments.n(), t, self.total());
            lemma_row_len(a, p, t, self.total());
            lemma_row_len(a, p, self.need(), len as int);
            let x = self.segments.x();
            lemma_row_len_mono(a, p, s0.need(), s0.g@.avail, self.need(), len as int);
            lemma_row_len_mono(a, p, self.need(), len as int, t, self.total());
            lemma_mono(p, s0.g@.known, count as int);
            assert forall|i: int| 0 <= i < r.take(count as int).len() implies (#[trigger] r.take(count as int)[i]).end() <= len by {
                assert(r.take(count as int)[i] == r[i]);
                assert(a + i * p + self.need() <= len);
            }
            assert forall|i: int| count <= i < r.len() implies (#[trigger] r[i]).pos >= max_fwd by { lemma_mono(p, count as int, i); }
        }
//@end
//@fn src/segment/stride.rs SegmentStream for ConstSlicer::as_slices
//@spec
//@entry
        proof {
            let (a, p, n, t) = (self.segments.a(), self.segments.p(), self.segments.n(), self.segments.t());
            let r = self.all();
            lemma_row(a, p, n, t, self.total());
            lemma_row_len(a, p, t, self.total());
            lemma_row_len(a, p, self.need(), self.g@.avail);
            lemma_row_len_mono(a, p, self.need(), self.g@.avail, t, self.total());
            let k = self.segments.in_lend.1 as int;
            assert forall|i: int| 0 <= i < k implies #[trigger] self.segments.segments@[i] == r[i] by {
                if !self.segments.is_eof { assert(a + i * p + self.need() <= self.g@.avail); lemma_mono(p, 0, i); }
            }
            assert(self.segments.segments@.take(k) =~= r.take(k));
        }
//@end
//@fn src/segment/stride.rs SegmentStream for ConstSlicer::consume
//@spec
//@entry
        let ghost s0 = *self;
        let ghost want = bytes as int;
        proof { assert(self.segments.lent(self.g@.avail)); }
//@tail `Ok`
        proof {
            let g = s0.g@;
            self.g = Ghost(Given { known: g.known - count, limit: g.limit - bytes, avail: g.avail - bytes, filled: false });
            let (a, a2, p, n, t) = (s0.segments.a(), self.segments.a(), self.segments.p(), self.segments.n(), self.segments.t());
            let (b, c) = (bytes as int, count as int);
            lemma_row_len_mono(a, p, s0.need(), g.avail, t, s0.total());
            lemma_row_skip(a, p, n, t, s0.total(), b, c, a2);
            lemma_row_len(a, p, s0.need(), g.avail);
            lemma_row_len(a2, p, s0.need(), g.avail - b);
            let m = g.known - c;
            lemma_step(p, m);
            lemma_step(p, g.known);
            lemma_step(p, 0);
            assert(m * p == g.known * p - c * p && (m - 1) * p == (g.known - 1) * p - c * p) by (nonlinear_arith) requires m == g.known - c;
            if m > 0 { let k = g.known - 1; assert(a + k * p + s0.need() <= g.avail); let k2 = m - 1; assert(k2 < row_len(a2, p, s0.need(), g.avail - b) <==> a2 + k2 * p + s0.need() <= g.avail - b); }
        }
//@end
}

// ---- N[,S..E]
// isize: division
fn quot_isize(x: isize, p: isize) -> (res: isize)
    requires 0 <= x, 0 < p
    ensures res == x as int / p as int
{ ((x as usize) / (p as usize)) as isize }
spec fn skips(s: int, n: int, span: int, head: int, j: int) -> bool { j >= 0 && head == s + j * n && (j > 0 ==> s < 0 && s + (j - 1) * n + span <= 0) }
// slices of n bytes, mapped by m: what does not overlap with the stream on the left is skipped
spec fn params_of(m: SegmentMapper, n: int, q: ConstSlicerParams) -> bool {
    let (s, e) = (m.start.at(0, n), m.end.at(0, n));
    &&& q.pitch == n && q.pitch > 0 && q.span == e - s && q.span > 0
    &&& q.open_ended == (false, false)
    &&& q.margin.0 + q.span >= 1
    &&& q.margin.1 + q.span == if s < 0 { 1 - s } else { 1 }
    &&& exists|j: int| #[trigger] skips(s, n, q.span as int, q.margin.0 as int, j)
}
spec fn pitch_of(n: int) -> int { if n < MAX_PITCH { n } else { MAX_PITCH as int } }
impl ConstSlicerParams {
//@fn src/segment/stride.rs ConstSlicerParams::from_raw
//@subst `expr.unwrap_or("s..e")` => `(match expr { Some(x) => x, None => "s..e" })`
//@subst `SegmentMapper::from_str(expr)?` => `parse_mapper(expr)?`
//@subst `(margin - span) / pitch` => `quot_isize(margin - span, pitch)` ?
//@subst `std::cmp::max` => `max_isize` ?
//@spec
    ensures
        res matches Ok(q) ==> params_of(mapper_of(text_of(expr)), pitch_of(pitch as int), q) && pitch > 0,
//@before `let head_margin`
        let ghost (s0, n) = (start as int, pitch as int);
        proof {
            lemma_step(n, 0);
            let x = -s0 - span;
            if x >= 0 { lemma_divmod(x, n); lemma_step(n, x / n); }
        }
//@before `Ok(ConstSlicerParams`
        proof {
            if head_margin != start {
                let x = -s0 - span;
                let j = x / n + 1;
                lemma_divmod(x, n);
                lemma_step(n, x / n);
                assert(skips(s0, n, span as int, head_margin as int, j));
            } else { assert(skips(s0, n, span as int, head_margin as int, 0)); }
            let q = ConstSlicerParams { margin: (head_margin, tail_margin), open_ended: (false, false), pitch: pitch as usize, span: span as usize };
            assert(s0 == mapper.start.at(0, n) && end == mapper.end.at(0, n));
            assert(q.margin.0 + q.span >= 1);
            assert(q.margin.1 + q.span == if s0 < 0 { 1 - s0 } else { 1 });
            assert(params_of(mapper, n, q));
        }
//@end
}
spec fn text_of(expr: Option<&str>) -> Seq<char> { match expr { Some(x) => x@, None => "s..e"@ } }

// str::split at the commas, into owned pieces
#[verifier::external_body]
fn split_commas(s: &str) -> (res: Vec<String>)
    ensures res.len() == split(s@, seq![',']).len(), res.len() > 0, forall|i: int| 0 <= i < res.len() ==> (#[trigger] res@[i])@ == split(s@, seq![','])[i]
{ s.split(',').map(|x| x.to_string()).collect() }
fn second(v: &Vec<String>) -> (res: Option<&str>)
    ensures v.len() < 2 ==> res is None, v.len() >= 2 ==> res is Some && (res->0)@ == v@[1]@
{ if v.len() >= 2 { Some(v[1].as_str()) } else { None } }
spec fn width_is(s: Seq<char>, q: ConstSlicerParams) -> bool {
    let v = split(s, seq![',']);
    &&& v.len() <= 2
    &&& size_of_text(v[0]) is Some && size_of_text(v[0])->0 > 0
    &&& params_of(mapper_of(if v.len() == 2 { v[1] } else { "s..e"@ }), pitch_of(size_of_text(v[0])->0 as int), q)
}
//@fn src/pipeline.rs parse_const_slicer_params
//@subst `s.split(',').map(|x| x.to_string()).collect::<Vec<_>>()` => `split_commas(s)`
//@subst `v.get(1).map(|x| x.as_str())` => `second(&v)`
//@spec
    ensures res matches Ok(q) ==> width_is(s@, q)
//@end
