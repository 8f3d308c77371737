// ---- raw pointers of the gather functions: where they point to, and how far they have moved. Reading or writing outside the array
// is a failed obligation.
#[derive(Clone, Copy)]
pub struct CPtr { pub src: Ghost<Seq<u8>>, pub off: Ghost<int> }
#[derive(Clone, Copy)]
pub struct DPtr { pub off: Ghost<int> }
impl CPtr {
    fn wrapping_add(self, n: usize) -> (res: CPtr) ensures res.src == self.src, res.off@ == self.off@ + n
    { CPtr { src: self.src, off: Ghost(self.off@ + n) } }
}
impl DPtr {
    fn wrapping_add(self, n: usize) -> (res: DPtr) ensures res.off@ == self.off@ + n
    { DPtr { off: Ghost(self.off@ + n) } }
}
fn cptr(s: &[u8]) -> (res: CPtr) ensures res.src@ == s@, res.off@ == 0 { CPtr { src: Ghost(s@), off: Ghost(0) } }
fn dptr() -> (res: DPtr) ensures res.off@ == 0 { DPtr { off: Ghost(0) } }
fn null_ptr() -> (res: CPtr) { CPtr { src: Ghost(Seq::empty()), off: Ghost(0) } }

// std::ptr::copy_nonoverlapping
#[verifier::external_body]
fn copy_into(dst_arr: &mut [u8], src: CPtr, dst: DPtr, n: usize)
    requires
        0 <= src.off@, src.off@ + n <= src.src@.len(),
        0 <= dst.off@, dst.off@ + n <= old(dst_arr)@.len(),
    ensures
        final(dst_arr)@ =~= old(dst_arr)@.subrange(0, dst.off@) + src.src@.subrange(src.off@, src.off@ + n)
            + old(dst_arr)@.subrange(dst.off@ + n, old(dst_arr)@.len() as int),
{ unimplemented!() }

// ---- the interleaving: in the q-th turn each source in order gives its q-th word
spec fn turn(vs: Seq<Seq<u8>>, w: int, q: int, k: int) -> Seq<u8>
    decreases k
{
    if k <= 0 { Seq::empty() } else { turn(vs, w, q, k - 1) + vs[k - 1].subrange(q * w, q * w + w) }
}
// turns a .. b
spec fn turns(vs: Seq<Seq<u8>>, w: int, a: int, b: int) -> Seq<u8>
    decreases b - a
{
    if b <= a { Seq::empty() } else { turns(vs, w, a, b - 1) + turn(vs, w, b - 1, vs.len() as int) }
}

spec fn word_in(v: Seq<u8>, w: int, q: int) -> bool { 0 <= q * w && q * w + w <= v.len() }

proof fn lemma_turn(vs: Seq<Seq<u8>>, us: Seq<Seq<u8>>, w: int, q: int, p: int, k: int)
    requires
        0 <= k <= vs.len(), vs.len() == us.len(), w >= 1,
        forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() ==> word_in(vs[j], w, q) && word_in(us[j], w, p)
            && vs[j].subrange(q * w, q * w + w) =~= us[j].subrange(p * w, p * w + w),
    ensures
        turn(vs, w, q, k) =~= turn(us, w, p, k),
        turn(vs, w, q, k).len() == k * w,
    decreases k
{
    if k > 0 {
        lemma_turn(vs, us, w, q, p, k - 1);
        assert((k - 1) * w + w == k * w) by(nonlinear_arith);
        assert(vs[k - 1].len() >= 0);
    } else {
        assert(k * w == 0) by(nonlinear_arith) requires k == 0;
    }
}

spec fn same_at(v: Seq<u8>, u: Seq<u8>, at: int, n: int) -> bool { forall|t: int| 0 <= t < n ==> #[trigger] u[t] == v[at + t] }

// the first b words of u are those of v after d words
spec fn apart(v: Seq<u8>, u: Seq<u8>, w: int, d: int, b: int) -> bool {
    u.len() >= b * w && v.len() >= (d + b) * w && same_at(v, u, d * w, b * w)
}

// the turns of sources whose heads have been dropped
proof fn lemma_turns_shift(vs: Seq<Seq<u8>>, us: Seq<Seq<u8>>, w: int, d: int, a: int, b: int)
    requires
        vs.len() == us.len(), w >= 1, 0 <= a <= b, 0 <= d,
        forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() ==> apart(vs[j], us[j], w, d, b),
    ensures
        turns(us, w, a, b) =~= turns(vs, w, d + a, d + b),
        turns(us, w, a, b).len() == vs.len() * w * (b - a),
    decreases b - a
{
    if a < b {
        assert((b - 1) * w + w == b * w && (d + b - 1) * w + w == (d + b) * w && (d + b - 1) * w == d * w + (b - 1) * w && (b - 1) * w >= 0
            && d * w >= 0) by(nonlinear_arith) requires w >= 1, b >= 1, d >= 0;
        assert((d + (b - 1)) * w + w == (d + b) * w) by(nonlinear_arith);
        assert forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() implies apart(vs[j], us[j], w, d, b - 1) by {
            assert(apart(vs[j], us[j], w, d, b));
        }
        lemma_turns_shift(vs, us, w, d, a, b - 1);
        assert(forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() ==> apart(vs[j], us[j], w, d, b));
        assert forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() implies word_in(vs[j], w, d + b - 1) && word_in(us[j], w, b - 1)
            && vs[j].subrange((d + b - 1) * w, (d + b - 1) * w + w) =~= us[j].subrange((b - 1) * w, (b - 1) * w + w) by {
            let x = vs[j].subrange((d + b - 1) * w, (d + b - 1) * w + w);
            let y = us[j].subrange((b - 1) * w, (b - 1) * w + w);
            assert forall|t: int| 0 <= t < w implies x[t] == y[t] by {
                assert(apart(vs[j], us[j], w, d, b));
                assert(us[j][(b - 1) * w + t] == vs[j][d * w + ((b - 1) * w + t)]);
            }
        }
        lemma_turn(vs, us, w, d + b - 1, b - 1, vs.len() as int);
        assert(vs.len() * w * (b - 1 - a) + vs.len() * w == vs.len() * w * (b - a)) by(nonlinear_arith);
    } else {
        assert(vs.len() * w * (b - a) == 0) by(nonlinear_arith) requires a == b;
    }
}

proof fn lemma_turns_split(vs: Seq<Seq<u8>>, w: int, a: int, m: int, b: int)
    requires a <= m <= b
    ensures turns(vs, w, a, b) =~= turns(vs, w, a, m) + turns(vs, w, m, b)
    decreases b - m
{
    if m < b { lemma_turns_split(vs, w, a, m, b - 1); }
}

spec fn min_len(vs: Seq<Seq<u8>>) -> int
    decreases vs.len()
{
    if vs.len() == 0 { 0 } else if vs.len() == 1 { vs[0].len() as int } else {
        let m = min_len(vs.drop_last());
        if m <= vs.last().len() { m } else { vs.last().len() as int }
    }
}

proof fn lemma_min_len(vs: Seq<Seq<u8>>)
    requires vs.len() > 0
    ensures
        forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() ==> min_len(vs) <= vs[j].len(),
        exists|j: int| #![trigger vs[j]] 0 <= j < vs.len() && min_len(vs) == vs[j].len(),
    decreases vs.len()
{
    if vs.len() > 1 {
        let d = vs.drop_last();
        lemma_min_len(d);
        assert forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() implies min_len(vs) <= vs[j].len() by {
            if j < d.len() { assert(d[j] == vs[j]); }
        }
        let i = choose|j: int| #![trigger d[j]] 0 <= j < d.len() && min_len(d) == d[j].len();
        assert(d[i] == vs[i]);
        assert(vs[vs.len() - 1] == vs.last());
    } else {
        assert(vs[0] == vs.last());
    }
}

// what zip puts out for these sources: whole turns, up to the end of the shortest
spec fn zipped(vs: Seq<Seq<u8>>, w: int) -> Seq<u8> { turns(vs, w, 0, min_len(vs) / w) }

spec fn rests_of(srcs: Seq<Box<dyn ByteStream>>) -> Seq<Seq<u8>> { Seq::new(srcs.len(), |j: int| srcs[j].rest()) }

spec fn needs_of(srcs: Seq<Box<dyn ByteStream>>) -> Seq<nat> { Seq::new(srcs.len(), |j: int| srcs[j].need()) }

proof fn lemma_zip_len(vs: Seq<Seq<u8>>, w: int)
    requires vs.len() >= 1, w >= 1
    ensures
        zipped(vs, w).len() <= vs.len() * min_len(vs),
        min_len(vs) >= 0,
{
    lemma_min_len(vs);
    let m = min_len(vs);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(m, w);
    let q = m / w;
    let n = vs.len() as int;
    assert(q >= 0 && q * w <= m && n * w * (q - 0) <= n * m && 0 * w == 0) by(nonlinear_arith)
        requires w >= 1, m >= 0, m == w * q + m % w, 0 <= m % w < w, n >= 1;
    assert forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() implies apart(vs[j], vs[j], w, 0, q) by {}
    lemma_turns_shift(vs, vs, w, 0, 0, q);
}

// b bytes are taken from each source
proof fn lemma_zip_fill(vs: Seq<Seq<u8>>, ps: Seq<Seq<u8>>, us: Seq<Seq<u8>>, w: int, b: int)
    requires
        vs.len() >= 1, w >= 1, vs.len() == us.len(), vs.len() == ps.len(),
        0 <= b, b % w == 0,
        forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() ==> b <= vs[j].len() && b <= ps[j].len() && us[j] =~= vs[j].skip(b)
            && ps[j].subrange(0, b) =~= vs[j].subrange(0, b),
    ensures
        turns(ps, w, 0, b / w) + zipped(us, w) =~= zipped(vs, w),
        b == min_len(vs) / w * w ==> zipped(us, w).len() == 0,
{
    lemma_min_len(vs);
    lemma_min_len(us);
    let m = min_len(vs);
    let r = min_len(us);
    let n = vs.len() as int;
    let i = choose|j: int| #![trigger vs[j]] 0 <= j < n && m == vs[j].len();
    let k = choose|j: int| #![trigger us[j]] 0 <= j < n && r == us[j].len();
    assert(us[i].len() == vs[i].len() - b && vs[k].len() - b == us[k].len());
    assert(r == m - b);
    let q = b / w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, w);
    assert(q * w == b && q >= 0) by(nonlinear_arith) requires b == w * q + b % w, b % w == 0, b >= 0, w >= 1;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q, w);
    vstd::arithmetic::div_mod::lemma_hoist_over_denominator(r, q, w as nat);
    let z = r / w;
    assert(m / w == z + q);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(r, w);
    assert(z >= 0 && z * w <= r && (q + z) * w == q * w + z * w && 0 * w == 0) by(nonlinear_arith)
        requires w >= 1, r >= 0, r == w * z + r % w, 0 <= r % w < w;
    // the part that is written
    assert forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() implies apart(vs[j], ps[j], w, 0, q) by {
        assert forall|t: int| 0 <= t < q * w implies #[trigger] ps[j][t] == vs[j][0 * w + t] by {
            assert(ps[j].subrange(0, b)[t] == vs[j].subrange(0, b)[t]);
        }
    }
    lemma_turns_shift(vs, ps, w, 0, 0, q);
    // the part that is left
    assert forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() implies apart(vs[j], us[j], w, q, z) by {
        assert(us[j].len() >= r);
    }
    lemma_turns_shift(vs, us, w, q, 0, z);
    lemma_turns_split(vs, w, 0, q, q + z);
    if b == m / w * w {
        assert(z == 0) by(nonlinear_arith) requires (z + q) * w == q * w, w >= 1;
    }
}

// the table of function pointers
#[derive(Clone, Copy)]
enum Gather { W1, W2, W3, W4, W5, W6, W7, W8, W16, General }

spec fn word_ok(g: Gather, w: int) -> bool {
    match g {
        Gather::W1 => w == 1, Gather::W2 => w == 2, Gather::W3 => w == 3, Gather::W4 => w == 4, Gather::W5 => w == 5,
        Gather::W6 => w == 6, Gather::W7 => w == 7, Gather::W8 => w == 8, Gather::W16 => w == 16, Gather::General => true,
    }
}


proof fn lemma_room(x: int, k: int, w: int, n: int, b: int)
    requires 0 <= x < b / w, 0 <= k < n, w >= 1, b >= 0
    ensures
        0 <= x * w, x * w + w <= b,
        0 <= (x * n + k) * w, (x * n + k) * w + w <= b * n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(b, w);
    assert(0 <= x * w && x * w + w <= b && 0 <= (x * n + k) * w && (x * n + k) * w + w <= b * n) by(nonlinear_arith)
        requires 0 <= x, x + 1 <= b / w, 0 <= k, k + 1 <= n, w >= 1, b == w * (b / w) + b % w, 0 <= b % w;
}

//@struct src/byte/zip.rs Zipper `Vec<*const u8>` => `Vec<CPtr>` `fn(&mut Self, usize, &mut [u8]) -> Result<usize>` => `Gather`

spec fn ptrs_of(p: Seq<CPtr>) -> Seq<Seq<u8>> { Seq::new(p.len(), |j: int| p[j].src@) }

fn null_ptrs(n: usize) -> (res: Vec<CPtr>)
    ensures res.len() == n
{
    let mut v: Vec<CPtr> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant v.len() == i, i <= n
        decreases n - i
    { v.push(null_ptr()); i += 1; }
    v
}

impl Zipper {
    spec fn zwf(&self) -> bool {
        &&& 1 <= self.srcs.len() <= 0x10_0000
        &&& self.ptrs.len() == self.srcs.len()
        &&& 1 <= self.word_size <= MAXLEN
        &&& word_ok(self.gather_impl, self.word_size as int)
        &&& forall|j: int| #![trigger self.srcs[j]] 0 <= j < self.srcs.len() ==> {
            &&& self.srcs[j].wf()
            &&& 0 <= self.srcs[j].avail() <= self.srcs[j].rest().len()
            &&& self.srcs[j].rest().len() * self.srcs.len() <= MAXLEN
            &&& self.srcs[j].need() + 16 * MAXLEN + 64 <= MAXREQ
        }
    }
    spec fn zrest(&self) -> Seq<u8> { zipped(rests_of(self.srcs@), self.word_size as int) }
    // the pointers are set, and `bytes` can be read through each
    spec fn ready(&self, bytes: int) -> bool {
        &&& self.ptrs.len() == self.srcs.len()
        &&& forall|j: int| #![trigger self.ptrs[j]] 0 <= j < self.ptrs.len() ==> self.ptrs[j].off@ == 0 && self.ptrs[j].src@.len() >= bytes
        &&& 0 <= bytes
        &&& bytes * self.srcs.len() <= MAXLEN
        &&& bytes % (self.word_size as int) == 0
        &&& self.word_size >= 1
    }

//@fn src/byte/zip.rs Zipper::new
//@subst `Self::gather_impl_w1` => `Gather::W1` *
//@subst `Self::gather_impl_w2` => `Gather::W2` *
//@subst `Self::gather_impl_w3` => `Gather::W3` *
//@subst `Self::gather_impl_w4` => `Gather::W4` *
//@subst `Self::gather_impl_w5` => `Gather::W5` *
//@subst `Self::gather_impl_w6` => `Gather::W6` *
//@subst `Self::gather_impl_w7` => `Gather::W7` *
//@subst `Self::gather_impl_w8` => `Gather::W8` *
//@subst `Self::gather_impl_w16` => `Gather::W16` *
//@subst `Self::gather_impl_general` => `Gather::General` *
//@subst `(0..len).map(|_| std::ptr::null::<u8>()).collect()` => `null_ptrs(len)`
//@spec
    requires
        1 <= srcs.len() <= 0x10_0000,
        1 <= word_size <= MAXLEN,
    ensures
        res.srcs == srcs,
        res.ptrs.len() == srcs.len(),
        res.word_size == word_size,
        word_ok(res.gather_impl, word_size as int),
//@end


    spec fn gathered(&self, after: Zipper, b: int, res: Result<usize>, buf: Seq<u8>) -> bool {
        &&& after.srcs == self.srcs
        &&& after.ptrs.len() == self.ptrs.len()
        &&& after.word_size == self.word_size
        &&& after.gather_impl == self.gather_impl
        &&& res matches Ok(m) && m == b * self.srcs.len() && buf.subrange(0, m as int) =~= turns(ptrs_of(self.ptrs@), self.word_size as int, 0, b / (self.word_size as int))
    }

    // after x turns and k sources of the next
    spec fn gathering(&self, me: Zipper, buf: Seq<u8>, dst: DPtr, x: int, k: int) -> bool {
        let n = me.srcs.len() as int;
        let w = me.word_size as int;
        &&& self.srcs == me.srcs
        &&& self.word_size == me.word_size
        &&& self.gather_impl == me.gather_impl
        &&& self.ptrs.len() == n
        &&& 0 <= k <= n
        &&& forall|j: int| #![trigger self.ptrs[j]] 0 <= j < n ==> self.ptrs[j].src == me.ptrs[j].src
                && self.ptrs[j].off@ == (if j < k { x * w + w } else { x * w })
        &&& dst.off@ == (x * n + k) * w
        &&& 0 <= dst.off@ <= buf.len()
        &&& buf.subrange(0, dst.off@) =~= turns(ptrs_of(me.ptrs@), w, 0, x) + turn(ptrs_of(me.ptrs@), w, x, k)
    }

    proof fn lemma_step(&self, b0: Seq<u8>, p0: Seq<CPtr>, d0: DPtr, b1: Seq<u8>, p1: Seq<CPtr>, x: int, k: int)
        requires
            0 <= k < self.srcs.len(), self.ptrs.len() == self.srcs.len(),
            x >= 0, self.word_size >= 1,
            p0.len() == self.ptrs.len(),
            p0[k].src == self.ptrs[k].src,
            p0[k].off@ == x * self.word_size,
            p0[k].off@ + self.word_size <= p0[k].src@.len(),
            d0.off@ == (x * self.srcs.len() + k) * self.word_size,
            d0.off@ >= 0,
            d0.off@ + self.word_size <= b0.len(),
            b0.subrange(0, d0.off@) =~= turns(ptrs_of(self.ptrs@), self.word_size as int, 0, x) + turn(ptrs_of(self.ptrs@), self.word_size as int, x, k),
            b1 =~= b0.subrange(0, d0.off@) + p0[k].src@.subrange(p0[k].off@, p0[k].off@ + self.word_size) + b0.subrange(d0.off@ + self.word_size, b0.len() as int),
        ensures
            b1.subrange(0, d0.off@ + self.word_size) =~= turns(ptrs_of(self.ptrs@), self.word_size as int, 0, x) + turn(ptrs_of(self.ptrs@), self.word_size as int, x, k + 1),
            d0.off@ + self.word_size == (x * self.srcs.len() + (k + 1)) * self.word_size,
    {
        let w = self.word_size as int;
        let n = self.srcs.len() as int;
        assert((x * n + k) * w + w == (x * n + (k + 1)) * w) by(nonlinear_arith);
        let vs = ptrs_of(self.ptrs@);
        assert(turn(vs, w, x, k + 1) =~= turn(vs, w, x, k) + vs[k].subrange(x * w, x * w + w));
    }

#[verifier::loop_isolation(false)]
//@fn src/byte/zip.rs Zipper::fill_buf
//@subst `for src in &mut self.srcs {` => `for k in 0..self.srcs.len() {`
//@subst `src.fill_buf(request)` => `self.srcs[k].fill_buf(request)`
//@subst `for (src, ptr) in self.srcs.iter_mut().zip(self.ptrs.iter_mut()) {` => `for k in 0..self.srcs.len() {`
//@subst `*ptr = src.as_slice().as_ptr();` => `self.ptrs.set(k, cptr(self.srcs[k].as_slice()));`
//@spec
    requires
        old(self).zwf(),
        request <= MAXLEN,
    ensures
        res matches Ok((e, b, n)) ==> {
            &&& final(self).zwf()
            &&& final(self).ready(b as int)
            &&& rests_of(final(self).srcs@) =~= rests_of(old(self).srcs@)
            &&& needs_of(final(self).srcs@) =~= needs_of(old(self).srcs@)
            &&& final(self).word_size == old(self).word_size
            &&& n == b * final(self).srcs.len()
            &&& forall|j: int| #![trigger final(self).srcs[j]] 0 <= j < final(self).srcs.len() ==> final(self).srcs[j].filled() && b <= final(self).srcs[j].avail()
            &&& forall|j: int| #![trigger final(self).ptrs[j]] 0 <= j < final(self).srcs.len() ==>
                    final(self).ptrs[j].src@.subrange(0, b as int) =~= final(self).srcs[j].rest().subrange(0, b as int)
            &&& e ==> b == min_len(rests_of(old(self).srcs@)) / (final(self).word_size as int) * final(self).word_size
        }
//@entry
        let ghost s0 = self.srcs@;
        let ghost w0 = self.word_size as int;
        proof {
            let n = self.srcs.len() as int;
            let a = request + n - 1;
            assert(a / n <= a) by(nonlinear_arith) requires a >= 0, n >= 1;
        }
//@loop 1
            invariant
                self.zwf(),
                self.srcs.len() == s0.len(),
                self.word_size == w0,
                request <= 2 * MAXLEN,
                forall|j: int| #![trigger self.srcs[j]] 0 <= j < s0.len() ==> self.srcs[j].rest() =~= s0[j].rest() && self.srcs[j].need() == s0[j].need(),
                forall|j: int| #![trigger self.srcs[j]] 0 <= j < k ==> self.srcs[j].filled() && len <= self.srcs[j].avail()
                    && (is_eof ==> self.srcs[j].avail() == self.srcs[j].rest().len()),
                k == 0 ==> len == usize::MAX,
                k > 0 ==> exists|j: int| #![trigger self.srcs[j]] 0 <= j < k && len == self.srcs[j].avail(),
//@loopstart 1
            let ghost s1 = self.srcs@;
            let ghost l1 = len;
            proof { assert(s1[k as int].need() == self.srcs[k as int].need()); }
//@loopend 1
            proof {
                assert(forall|j: int| 0 <= j < s0.len() && j != k ==> self.srcs[j] == s1[j]);
                assert(len == l1 || len == self.srcs[k as int].avail());
                assert(exists|j: int| #![trigger self.srcs[j]] 0 <= j < k + 1 && len == self.srcs[j].avail()) by {
                    if len != self.srcs[k as int].avail() {
                        assert(k > 0);
                        let j = choose|j: int| #![trigger s1[j]] 0 <= j < k && l1 == s1[j].avail();
                        assert(self.srcs[j] == s1[j]);
                    }
                }
            }
//@before `let len = (len / self.word_size) * self.word_size;`
        let ghost l0 = len as int;
        proof {
            let r = rests_of(s0);
            lemma_min_len(r);
            assert(self.srcs[0].avail() >= len);
            if is_eof {
                let i = choose|j: int| #![trigger self.srcs[j]] 0 <= j < s0.len() && len == self.srcs[j].avail();
                let m = choose|j: int| #![trigger r[j]] 0 <= j < r.len() && min_len(r) == r[j].len();
                assert(r[i] == s0[i].rest());
                assert(self.srcs[m].avail() == self.srcs[m].rest().len());
                assert(len == min_len(r));
            }
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l0, w0);
            vstd::arithmetic::div_mod::lemma_mod_bound(l0, w0);
            assert(l0 / w0 * w0 <= l0 && l0 / w0 * w0 >= 0) by(nonlinear_arith) requires w0 >= 1, l0 >= 0, l0 == w0 * (l0 / w0) + l0 % w0, 0 <= l0 % w0;
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(l0 / w0, w0);
        }
        let ghost s2 = self.srcs@;
//@loop 2
            invariant
                self.zwf(),
                self.srcs@ == s2,
                self.word_size == w0,
                forall|j: int| #![trigger self.ptrs[j]] 0 <= j < k ==> self.ptrs[j].off@ == 0 && self.ptrs[j].src@.len() >= self.srcs[j].avail()
                    && self.ptrs[j].src@.subrange(0, self.srcs[j].avail()) =~= self.srcs[j].rest().subrange(0, self.srcs[j].avail()),
//@afterloop 2
        proof {
            let n = self.srcs.len() as int;
            assert(len * n <= MAXLEN) by(nonlinear_arith)
                requires len <= self.srcs[0].avail() <= self.srcs[0].rest().len(), self.srcs[0].rest().len() * n <= MAXLEN, n >= 1;
            assert(self.srcs.len() * len == len * n) by(nonlinear_arith) requires n == self.srcs.len();
            assert forall|j: int| #![trigger self.ptrs[j]] 0 <= j < n implies
                    self.ptrs[j].src@.subrange(0, len as int) =~= self.srcs[j].rest().subrange(0, len as int) by {
                let a = self.srcs[j].avail();
                assert(len <= a);
                let p = self.ptrs[j].src@;
                let r = self.srcs[j].rest();
                assert(p.subrange(0, a).subrange(0, len as int) =~= p.subrange(0, len as int));
                assert(r.subrange(0, a).subrange(0, len as int) =~= r.subrange(0, len as int));
            }
        }
//@end

//@foreach w = 1 2 3 4 5 6 7 8 16
#[verifier::loop_isolation(false)]
//@fn src/byte/zip.rs Zipper::gather_impl_w$w
//@subst `buf.as_mut_ptr()` => `dptr()`
//@subst `for _ in 0..` => `for x in 0..`
//@subst `for ptr in self.ptrs.iter_mut() {` => `for k in 0..self.ptrs.len() {`
//@subst `unsafe { std::ptr::copy_nonoverlapping(*ptr, dst, $w) };` => `copy_into(buf, self.ptrs[k], dst, $w);`
//@subst `*ptr = ptr.wrapping_add($w);` => `let moved = self.ptrs[k].wrapping_add($w); self.ptrs.set(k, moved);`
//@spec
    requires
        old(self).ready(bytes_per_src as int),
        old(self).word_size == $w,
        old(buf)@.len() >= bytes_per_src * old(self).srcs.len(),
    ensures
        old(self).gathered(*final(self), bytes_per_src as int, res, final(buf)@),
        final(buf)@.len() == old(buf)@.len(),
//@entry
        let ghost b = bytes_per_src as int;
        let ghost w = self.word_size as int;
        let ghost n = self.srcs.len() as int;
        let ghost me = *self;
        proof {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, w);
            assert(w * (b / w) == (b / w) * w) by(nonlinear_arith);
            vstd::arithmetic::mul::lemma_mul_is_commutative(b, n);
            assert(0 * n == 0 && 0 * w == 0) by(nonlinear_arith);
            assert(buf@.subrange(0, 0) =~= Seq::<u8>::empty());
        }
//@loop 1
            invariant
                b / w == bytes_per_src / $w,
                self.gathering(me, buf@, dst, x as int, 0),
                buf@.len() == old(buf)@.len(),
//@loop 2
            invariant
                x < b / w,
                self.gathering(me, buf@, dst, x as int, k as int),
                buf@.len() == old(buf)@.len(),
//@loopstart 2
                let ghost (b0, p0, d0) = (buf@, self.ptrs@, dst);
                proof { lemma_room(x as int, k as int, w, n, b); }
//@loopend 2
                proof {
                    me.lemma_step(b0, p0, d0, buf@, self.ptrs@, x as int, k as int);
                    assert(self.gathering(me, buf@, dst, x as int, k as int + 1));
                }
//@afterloop 2
            proof {
                assert((x + 1) * n == x * n + n && (x + 1) * w == x * w + w && ((x + 1) * n + 0) * w == (x * n + n) * w) by(nonlinear_arith);
                assert(turn(ptrs_of(me.ptrs@), w, x as int, 0) =~= Seq::<u8>::empty());
                assert(turns(ptrs_of(me.ptrs@), w, 0, x + 1) =~= turns(ptrs_of(me.ptrs@), w, 0, x as int) + turn(ptrs_of(me.ptrs@), w, x as int, n));
                assert(self.gathering(me, buf@, dst, x + 1, 0));
            }
//@afterloop 1
        proof {
            let m = b / w;
            assert((m * n + 0) * w == n * b) by(nonlinear_arith) requires m * w == b;
            assert(turn(ptrs_of(me.ptrs@), w, m, 0) =~= Seq::<u8>::empty());
        }
//@end
//@endforeach

#[verifier::loop_isolation(false)]
//@fn src/byte/zip.rs Zipper::gather_impl_general
//@subst `buf.as_mut_ptr()` => `dptr()`
//@subst `for _ in 0..` => `for x in 0..`
//@subst `for ptr in self.ptrs.iter_mut() {` => `for k in 0..self.ptrs.len() {`
//@subst `unsafe { std::ptr::copy_nonoverlapping(*ptr, dst, self.word_size) };` => `copy_into(buf, self.ptrs[k], dst, self.word_size);`
//@subst `*ptr = ptr.wrapping_add(self.word_size);` => `let moved = self.ptrs[k].wrapping_add(self.word_size); self.ptrs.set(k, moved);`
//@spec
    requires
        old(self).ready(bytes_per_src as int),
        
        old(buf)@.len() >= bytes_per_src * old(self).srcs.len(),
    ensures
        old(self).gathered(*final(self), bytes_per_src as int, res, final(buf)@),
        final(buf)@.len() == old(buf)@.len(),
//@entry
        let ghost b = bytes_per_src as int;
        let ghost w = self.word_size as int;
        let ghost n = self.srcs.len() as int;
        let ghost me = *self;
        proof {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, w);
            assert(w * (b / w) == (b / w) * w) by(nonlinear_arith);
            vstd::arithmetic::mul::lemma_mul_is_commutative(b, n);
            assert(0 * n == 0 && 0 * w == 0) by(nonlinear_arith);
            assert(buf@.subrange(0, 0) =~= Seq::<u8>::empty());
        }
//@loop 1
            invariant
                b / w == bytes_per_src / self.word_size,
                self.gathering(me, buf@, dst, x as int, 0),
                buf@.len() == old(buf)@.len(),
//@loop 2
            invariant
                x < b / w,
                self.gathering(me, buf@, dst, x as int, k as int),
                buf@.len() == old(buf)@.len(),
//@loopstart 2
                let ghost (b0, p0, d0) = (buf@, self.ptrs@, dst);
                proof { lemma_room(x as int, k as int, w, n, b); }
//@loopend 2
                proof {
                    me.lemma_step(b0, p0, d0, buf@, self.ptrs@, x as int, k as int);
                    assert(self.gathering(me, buf@, dst, x as int, k as int + 1));
                }
//@afterloop 2
            proof {
                assert((x + 1) * n == x * n + n && (x + 1) * w == x * w + w && ((x + 1) * n + 0) * w == (x * n + n) * w) by(nonlinear_arith);
                assert(turn(ptrs_of(me.ptrs@), w, x as int, 0) =~= Seq::<u8>::empty());
                assert(turns(ptrs_of(me.ptrs@), w, 0, x + 1) =~= turns(ptrs_of(me.ptrs@), w, 0, x as int) + turn(ptrs_of(me.ptrs@), w, x as int, n));
                assert(self.gathering(me, buf@, dst, x + 1, 0));
            }
//@afterloop 1
        proof {
            let m = b / w;
            assert((m * n + 0) * w == n * b) by(nonlinear_arith) requires m * w == b;
            assert(turn(ptrs_of(me.ptrs@), w, m, 0) =~= Seq::<u8>::empty());
        }
//@end

    // the call through the function pointer
    fn gather_dispatch(&mut self, g: Gather, bytes_per_src: usize, buf: &mut [u8]) -> (res: Result<usize>)
        requires
            old(self).ready(bytes_per_src as int),
            g == old(self).gather_impl,
            word_ok(old(self).gather_impl, old(self).word_size as int),
            old(buf)@.len() >= bytes_per_src * old(self).srcs.len(),
        ensures
            old(self).gathered(*final(self), bytes_per_src as int, res, final(buf)@),
            final(buf)@.len() == old(buf)@.len(),
    {
        match g {
            Gather::W1 => self.gather_impl_w1(bytes_per_src, buf),
            Gather::W2 => self.gather_impl_w2(bytes_per_src, buf),
            Gather::W3 => self.gather_impl_w3(bytes_per_src, buf),
            Gather::W4 => self.gather_impl_w4(bytes_per_src, buf),
            Gather::W5 => self.gather_impl_w5(bytes_per_src, buf),
            Gather::W6 => self.gather_impl_w6(bytes_per_src, buf),
            Gather::W7 => self.gather_impl_w7(bytes_per_src, buf),
            Gather::W8 => self.gather_impl_w8(bytes_per_src, buf),
            Gather::W16 => self.gather_impl_w16(bytes_per_src, buf),
            Gather::General => self.gather_impl_general(bytes_per_src, buf),
        }
    }

//@fn src/byte/zip.rs Zipper::gather
//@subst `(self.gather_impl)(self, bytes_per_src, buf)` => `self.gather_dispatch(self.gather_impl, bytes_per_src, buf)`
//@spec
    requires
        old(self).ready(bytes_per_src as int),
        word_ok(old(self).gather_impl, old(self).word_size as int),
        old(buf)@.len() >= bytes_per_src * old(self).srcs.len(),
    ensures
        old(self).gathered(*final(self), bytes_per_src as int, res, final(buf)@),
        final(buf)@.len() == old(buf)@.len(),
//@end

#[verifier::loop_isolation(false)]
//@fn src/byte/zip.rs Zipper::consume
//@subst `for src in &mut self.srcs {` => `for k in 0..self.srcs.len() {`
//@subst `src.consume(bytes_per_src)` => `self.srcs[k].consume(bytes_per_src)`
//@spec
    requires
        old(self).zwf(),
        forall|j: int| #![trigger old(self).srcs[j]] 0 <= j < old(self).srcs.len() ==> old(self).srcs[j].filled() && bytes_per_src <= old(self).srcs[j].avail(),
    ensures
        final(self).zwf(),
        final(self).word_size == old(self).word_size,
        final(self).srcs.len() == old(self).srcs.len(),
        needs_of(final(self).srcs@) =~= needs_of(old(self).srcs@),
        forall|j: int| #![trigger final(self).srcs[j]] 0 <= j < old(self).srcs.len() ==> final(self).srcs[j].rest() =~= old(self).srcs[j].rest().skip(bytes_per_src as int),
//@entry
        let ghost s0 = self.srcs@;
//@loop 1
            invariant
                self.zwf(),
                self.word_size == old(self).word_size,
                self.srcs.len() == s0.len(),
                forall|j: int| #![trigger self.srcs[j]] k <= j < s0.len() ==> self.srcs[j] == s0[j],
                forall|j: int| #![trigger self.srcs[j]] 0 <= j < k ==> self.srcs[j].rest() =~= s0[j].rest().skip(bytes_per_src as int) && self.srcs[j].need() == s0[j].need(),
//@loopstart 1
            let ghost s1 = self.srcs@;
//@loopend 1
            proof {
                assert(forall|j: int| 0 <= j < s0.len() && j != k ==> self.srcs[j] == s1[j]);
                let l = self.srcs[k as int].rest().len() as int;
                let l0 = s0[k as int].rest().len() as int;
                let n = s0.len() as int;
                assert(l * n <= l0 * n) by(nonlinear_arith) requires l <= l0, n >= 1;
            }
//@end
}

//@struct src/byte/zip.rs ZipStream

struct GatherEnv<'a> {
    src: &'a mut Zipper,
    bytes_per_src: usize,
}
impl<'a> Writer for GatherEnv<'a> {
    spec fn pre(&self, len: int) -> bool {
        &&& self.src.ready(self.bytes_per_src as int)
        &&& word_ok(self.src.gather_impl, self.src.word_size as int)
        &&& len >= self.bytes_per_src * self.src.srcs.len()
    }
    spec fn sure(&self) -> bool { false }
    type Wfin = Zipper;
    #[verifier::prophetic]
    spec fn wfin(&self) -> Self::Wfin { *final(self.src) }
    spec fn post(&self, after: &Self, out: Seq<u8>) -> bool {
        &&& after.src.srcs == self.src.srcs
        &&& after.src.ptrs.len() == self.src.ptrs.len()
        &&& after.src.word_size == self.src.word_size
        &&& after.src.gather_impl == self.src.gather_impl
        &&& after.bytes_per_src == self.bytes_per_src
        &&& out =~= turns(ptrs_of(self.src.ptrs@), self.src.word_size as int, 0, self.bytes_per_src as int / (self.src.word_size as int))
    }
//@closure src/byte/zip.rs ByteStream for ZipStream::fill_buf 2
//@sig fn call(&mut self, buf: &mut [u8]) -> Result<usize>
//@subst `, buf)` => `, &mut *buf)`
//@subst `(bytes_per_src` => `(self.bytes_per_src`
//@end
}

struct ZipEnv<'a> {
    src: &'a mut Zipper,
    needs: Ghost<Seq<nat>>,
}

impl<'a> Filler for ZipEnv<'a> {
    spec fn wf(&self, buf: Seq<u8>) -> bool { self.src.zwf() && needs_of(self.src.srcs@) =~= self.needs@ }
    spec fn wf_end(&self, buf: Seq<u8>) -> bool { self.src.zwf() && needs_of(self.src.srcs@) =~= self.needs@ }
    spec fn rest(&self) -> Seq<u8> { self.src.zrest() }
    spec fn need(&self) -> nat { 0 }
    type Fin = Zipper;
    #[verifier::prophetic]
    spec fn fin(&self) -> Self::Fin { *final(self.src) }

//@closure src/byte/zip.rs ByteStream for ZipStream::fill_buf 1
//@sig fn call(&mut self, request: usize, buf: &mut Vec<u8>) -> Result<bool>
//@subst `buf.fill_uninit(` => `{ let mut env = GatherEnv { src: &mut *self.src, bytes_per_src }; fill_uninit(buf, `
//@subst `)?; self.src.consume(` => `)? }; self.src.consume(`
//@closurearg 1 => `&mut env`
//@entry
        let ghost vs = rests_of(self.src.srcs@);
        let ghost w = self.src.word_size as int;
        let ghost b0 = buf@;
//@before `{ let mut env`
        let ghost ps0 = ptrs_of(self.src.ptrs@);
//@before `Ok(is_eof)`
        proof {
            let us = rests_of(self.src.srcs@);
            let b = bytes_per_src as int;
            lemma_zip_fill(vs, ps0, us, w, b);
        }
//@end
}

impl ZipStream {
//@fn src/byte/zip.rs ZipStream::new
//@spec
    requires
        1 <= srcs.len() <= 0x10_0000,
        1 <= word_size <= MAXLEN,
        forall|j: int| #![trigger srcs[j]] 0 <= j < srcs.len() ==> sok(srcs[j]) && srcs[j].rest().len() * srcs.len() <= MAXLEN,
    ensures
        res.wf(),
        res.rest() =~= zipped(rests_of(srcs@), word_size as int),
//@entry
        proof {
            let vs = rests_of(srcs@);
            lemma_zip_len(vs, word_size as int);
            lemma_min_len(vs);
            assert(vs[0] == srcs[0].rest());
            let m = min_len(vs);
            let l = srcs[0].rest().len() as int;
            let n = vs.len() as int;
            assert(n * m <= l * n) by(nonlinear_arith) requires m <= l, n >= 1;
            lemma_pad(zipped(vs, word_size as int).len() as int, 1);
        }
//@end
}

impl ByteStream for ZipStream {
    spec fn wf(&self) -> bool {
        &&& self.buf.wf()
        &&& self.buf.align == 1
        &&& self.src.zwf()
        &&& !self.buf.is_eof ==> self.buf.end() + self.src.zrest().len() + 1 <= 2 * MAXLEN
    }
    spec fn rest(&self) -> Seq<u8> { self.buf.future(self.src.zrest()) }
    spec fn ended(&self) -> bool { self.buf.is_eof }
    spec fn avail(&self) -> int { self.buf.content().len() as int }
    spec fn nl(&self) -> bool { false }
    spec fn filled(&self) -> bool { true }
    spec fn need(&self) -> nat { 1 }
//@fn src/byte/zip.rs ByteStream for ZipStream::fill_buf
//@closurearg 1 => `&mut env`
//@entry
        let ghost needs = needs_of(self.src.srcs@);
        let mut env = ZipEnv { src: &mut self.src, needs: Ghost(needs) };
//@end
//@fn src/byte/zip.rs ByteStream for ZipStream::as_slice
//@end
//@fn src/byte/zip.rs ByteStream for ZipStream::consume
//@end
}
