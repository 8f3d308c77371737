//@const src/params.rs BLOCK_SIZE
//@const src/params.rs MARGIN_SIZE


// the capacity only guides reservations: any value is assumed
#[verifier::external_body]
pub fn capacity_of(v: &Vec<u8>) -> (n: usize) { v.capacity() }

// std: the smallest power of two that is >= x; the argument is bounded in the contracts
#[verifier::external_body]
pub fn next_power_of_two(x: usize) -> (n: usize)
    requires x <= 0x1000_0000_0000_0000
    ensures n >= x, n >= 1, x >= 1 ==> n < 2 * x, x == 0 ==> n == 1
{ x.next_power_of_two() }

// what StreamBuf::fill_buf is given: a closure that appends bytes to the buffer
trait Filler {
    // before a call, with the bytes that are already in the buffer
    spec fn wf(&self, buf: Seq<u8>) -> bool;
    // once the call has reported the end
    spec fn wf_end(&self, buf: Seq<u8>) -> bool;
    // bytes it has still to supply
    spec fn rest(&self) -> Seq<u8>;
    // room it needs above the requests it is given
    spec fn need(&self) -> nat;
    // what the borrowed variables will hold when the borrows end: the same borrows are kept throughout
    type Fin;
    #[verifier::prophetic]
    spec fn fin(&self) -> Self::Fin;
    fn call(&mut self, request: usize, buf: &mut Vec<u8>) -> (res: Result<bool>)
        requires
            old(self).wf(old(buf)@),
            request >= 1,
            request + old(self).need() <= MAXREQ,
            old(buf).len() + old(self).rest().len() <= 2 * MAXLEN,
        ensures
            res matches Ok(e) ==> {
                &&& final(self).need() == old(self).need()
                &&& final(self).fin() == old(self).fin()
                &&& final(buf)@ + final(self).rest() =~= old(buf)@ + old(self).rest()
                &&& final(buf).len() >= old(buf).len()
                &&& !e ==> final(self).wf(final(buf)@)
                &&& e ==> final(self).wf_end(final(buf)@)
                &&& e ==> final(self).rest().len() == 0
            };
}

spec fn pad_len(total: int, align: int) -> int {
    (total + align - 1) / align * align - total
}

proof fn lemma_pad(total: int, align: int)
    requires total >= 0, align >= 1
    ensures 0 <= pad_len(total, align) < align
{
    let t = total + align - 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, align);
    vstd::arithmetic::div_mod::lemma_mod_bound(t, align);
    vstd::arithmetic::mul::lemma_mul_is_commutative(align, t / align);
}

//@struct src/streambuf.rs StreamBuf

impl StreamBuf {
    spec fn wf(&self) -> bool {
        &&& 1 <= self.align <= MAXLEN
        &&& self.pos <= self.len
        &&& self.buf.len() == self.len + MARGIN_SIZE
        &&& self.target_len <= 16 * MAXLEN
        &&& self.offset + self.len <= 3 * MAXLEN
    }
    // the margin is filled with newlines: once something has been read
    spec fn nlm(&self) -> bool { forall|i: int| self.len <= i < self.len + MARGIN_SIZE ==> #[trigger] self.buf@[i] == 10 }
    // the bytes that are exposed and not consumed
    spec fn raw(&self) -> Seq<u8> { self.buf@.subrange(0, self.len as int) }
    // the next fill_buf ends the stream or exposes something
    spec fn primed(&self) -> bool { self.target_len > self.pos }
    spec fn content(&self) -> Seq<u8> { self.buf@.subrange(self.pos as int, self.len as int) }
    // absolute offset of the end of the buffer in the stream
    spec fn end(&self) -> int { self.offset + self.len }
    // the filler bytes that round the stream up to the alignment, when `rest` is still to come
    spec fn padding(&self, rest: Seq<u8>) -> Seq<u8> {
        fill_seq(pad_len(self.end() + rest.len(), self.align as int), self.filler)
    }
    spec fn padding0(&self, n: nat) -> Seq<u8> {
        fill_seq(pad_len(self.offset + n, self.align as int), self.filler)
    }
    // everything that comes out of the buffer from now on
    spec fn future(&self, rest: Seq<u8>) -> Seq<u8> {
        if self.is_eof { self.content() } else { self.content() + rest + self.padding(rest) }
    }

//@fn src/streambuf.rs StreamBuf::new
//@spec
    ensures res.wf(), res.align == 1, res.content().len() == 0, res.end() == 0, !res.is_eof, res.pos == 0,
        res.primed()
//@end

//@fn src/streambuf.rs StreamBuf::new_with_align
//@spec
    requires 1 <= align <= MAXLEN
    ensures
        res.wf(), res.align == align, res.filler == filler, res.content().len() == 0, res.end() == 0, !res.is_eof, res.pos == 0,
        res.primed()
//@subst `vec![0; MARGIN_SIZE]` => `zeroed(MARGIN_SIZE)`
//@end

//@fn src/streambuf.rs StreamBuf::filler
//@spec
    ensures res == self.filler
//@end

//@fn src/streambuf.rs StreamBuf::len
//@spec
    requires self.wf()
    ensures res == self.content().len()
//@end

//@fn src/streambuf.rs StreamBuf::extend_from_slice
//@spec
    requires
        old(self).wf(),
        old(self).end() + stream.len() <= 3 * MAXLEN,
    ensures
        final(self).wf(),
        final(self).nlm(),
        final(self).content() =~= old(self).content() + stream@,
        final(self).end() == old(self).end() + stream.len(),
        final(self).is_eof == old(self).is_eof,
        final(self).align == old(self).align,
        final(self).filler == old(self).filler,
        final(self).pos == old(self).pos,
        final(self).target_len == old(self).target_len,
//@exit
        proof {
            let b = old(self).buf@.subrange(0, old(self).len as int) + stream@;
            assert(self.buf@.subrange(0, self.len as int) =~= b);
            assert(self.content() =~= b.subrange(self.pos as int, b.len() as int));
        }
//@end

//@fn src/streambuf.rs StreamBuf::mark_eof
//@spec
    requires
        1 <= old(self).align <= MAXLEN,
        old(self).offset + old(self).buf.len() <= 4 * MAXLEN,
    ensures
        final(self).is_eof,
        final(self).buf@ =~= old(self).buf@
            + fill_seq(pad_len(old(self).offset + old(self).buf.len(), old(self).align as int), old(self).filler),
        final(self).target_len == old(self).target_len,
        final(self).pos == old(self).pos,
        final(self).len == old(self).len,
        final(self).offset == old(self).offset,
        final(self).align == old(self).align,
        final(self).filler == old(self).filler,
//@entry
        proof {
            let total = self.offset + self.buf.len();
            let a = self.align as int;
            lemma_pad(total, a);
            assert((total + a - 1) / a <= total + a - 1) by(nonlinear_arith) requires a >= 1, total >= 0;
        }
//@end

//@fn src/streambuf.rs StreamBuf::clear_eof
//@spec
    ensures
        !final(self).is_eof,
        final(self).buf == old(self).buf,
        final(self).target_len == old(self).target_len,
        final(self).pos == old(self).pos,
        final(self).len == old(self).len,
        final(self).offset == old(self).offset,
        final(self).align == old(self).align,
        final(self).filler == old(self).filler,
//@end

#[verifier::exec_allows_no_decreases_clause]
//@fn src/streambuf.rs StreamBuf::fill_buf
//@sig fn fill_buf<F: Filler>(&mut self, request: usize, f: &mut F) -> Result<(bool, usize)>
//@subst `let mut f = f;` => ``
//@subst `f(request, &mut self.buf)` => `f.call(request, &mut self.buf)`
//@spec
    requires
        old(self).wf(),
        !old(self).is_eof ==> old(f).wf(old(self).raw()),
        request + old(f).need() + 1 <= MAXREQ,
        16 * MAXLEN + old(f).need() + 1 <= MAXREQ,
        !old(self).is_eof ==> old(self).end() + old(f).rest().len() + old(self).align <= 2 * MAXLEN,
    ensures
        res matches Ok((e, n)) ==> {
            &&& final(self).wf()
            &&& (old(self).nlm() || !old(self).is_eof ==> final(self).nlm())
            &&& (!e ==> final(f).wf(final(self).raw()))
            &&& (!e && old(self).primed() ==> n >= 1)
            &&& (e && !old(self).is_eof ==> exists|b: Seq<u8>| #[trigger] final(f).wf_end(b) && b + final(self).padding0(b.len()) =~= final(self).raw())
            &&& final(self).target_len == old(self).target_len
            &&& final(f).need() == old(f).need()
            &&& final(f).fin() == old(f).fin()
            &&& final(self).align == old(self).align
            &&& final(self).filler == old(self).filler
            &&& final(self).pos == old(self).pos
            &&& e == final(self).is_eof
            &&& n == final(self).content().len()
            &&& n >= old(self).content().len()
            &&& (!e ==> n >= request)
            &&& (!e ==> final(self).end() + final(f).rest().len() == old(self).end() + old(f).rest().len())
            &&& (e && !old(self).is_eof ==> final(f).rest().len() == 0)
            &&& (e && !old(self).is_eof ==> final(self).end() == old(self).end() + old(f).rest().len()
                    + old(self).padding(old(f).rest()).len())
            &&& (old(self).is_eof ==> e && *final(f) == *old(f) && *final(self) == *old(self))
            &&& final(self).future(final(f).rest()) =~= old(self).future(old(f).rest())
        }
//@beforeloop 1
        let ghost mut ended: Seq<u8> = Seq::empty();
        proof { assert(self.buf@ =~= old(self).raw()); }
//@loop 1
            invariant_except_break
                f.wf(self.buf@),
                !self.is_eof,
                self.buf@ + f.rest() =~= old(self).buf@.subrange(0, old(self).len as int) + old(f).rest(),
                self.buf.len() + f.rest().len() == old(self).len + old(f).rest().len(),
            invariant
                self.align == old(self).align,
                self.filler == old(self).filler,
                self.pos == old(self).pos,
                self.offset == old(self).offset,
                self.len == old(self).len,
                self.target_len == old(self).target_len,
                self.wf_parts(),
                !old(self).is_eof,
                f.need() == old(f).need(),
                f.fin() == old(f).fin(),
                target_len + old(f).need() + 1 <= MAXREQ || target_len - self.buf.len() + old(f).need() + 1 <= MAXREQ,
                self.buf.len() >= self.len,
                old(self).end() + old(f).rest().len() + old(self).align <= 2 * MAXLEN,
                target_len >= self.pos + request || target_len == usize::MAX,
                target_len - self.buf.len() <= request || target_len <= 16 * MAXLEN,
                request + old(f).need() + 1 <= MAXREQ,
                16 * MAXLEN + old(f).need() + 1 <= MAXREQ,
            ensures
                self.align == old(self).align,
                self.filler == old(self).filler,
                self.pos == old(self).pos,
                self.offset == old(self).offset,
                self.len == old(self).len,
                self.target_len == old(self).target_len,
                self.wf_parts(),
                !self.is_eof ==> f.wf(self.buf@),
                self.is_eof ==> f.wf_end(ended) && ended + self.padding0(ended.len()) =~= self.buf@,
                f.need() == old(f).need(),
                f.fin() == old(f).fin(),
                self.buf.len() >= self.len,
                self.is_eof ==> f.rest().len() == 0,
                self.is_eof ==> self.buf@ =~= old(self).buf@.subrange(0, old(self).len as int) + old(f).rest() + old(self).padding(old(f).rest()),
                !self.is_eof ==> self.buf@ + f.rest() =~= old(self).buf@.subrange(0, old(self).len as int) + old(f).rest(),
                !self.is_eof ==> self.buf.len() >= target_len,
//@after `let is_eof = f.call(request, &mut self.buf)?;`
            proof {
                let l = self.buf@ + f.rest();
                let r = old(self).buf@.subrange(0, old(self).len as int) + old(f).rest();
                assert(l =~= r);
                assert(l.len() == r.len());
            }
//@before `self.mark_eof();`
            proof {
                assert(self.buf.len() == old(self).len + old(f).rest().len());
                lemma_pad(self.offset + self.buf.len(), self.align as int);
                ended = self.buf@;
            }
//@before `self.len = self.buf.len();`
        let ghost blen = self.buf.len();
        proof {
            lemma_pad(old(self).end() + old(f).rest().len(), old(self).align as int);
        }
        let ghost b0 = self.buf@;
//@before `Ok((self.is_eof, self.len - self.pos))`
        proof {
            assert(self.buf@.subrange(0, self.len as int) =~= b0);
            assert(self.raw() =~= b0);
            let c0 = old(self).content();
            assert(self.content() =~= b0.subrange(self.pos as int, b0.len() as int));
            if self.is_eof {
                assert(self.content() =~= c0 + old(f).rest() + old(self).padding(old(f).rest()));
            } else {
                assert(self.content() + f.rest() =~= c0 + old(f).rest()) by {
                    let l = b0 + f.rest();
                    let r = old(self).buf@.subrange(0, old(self).len as int) + old(f).rest();
                    assert(l.subrange(self.pos as int, l.len() as int) =~= self.content() + f.rest());
                    assert(r.subrange(self.pos as int, r.len() as int) =~= c0 + old(f).rest());
                }
                assert(self.end() + f.rest().len() == old(self).end() + old(f).rest().len());
            }
        }
//@end

    spec fn wf_parts(&self) -> bool {
        &&& 1 <= self.align <= MAXLEN
        &&& self.pos <= self.len
        &&& self.target_len <= 16 * MAXLEN
        &&& self.offset + self.len <= 3 * MAXLEN
    }

//@fn src/streambuf.rs StreamBuf::as_slice
//@spec
    requires self.wf()
    ensures
        res.len() >= self.content().len() + MARGIN_SIZE,
        res@.subrange(0, self.content().len() as int) =~= self.content(),
        self.nlm() ==> forall|i: int| self.content().len() <= i < self.content().len() + MARGIN_SIZE ==> res@[i] == 10,
//@end

//@fn src/streambuf.rs StreamBuf::consume
//@subst `.next_power_of_two()` => `.npot()`
//@subst `self.buf.capacity()` => `capacity_of(&self.buf)`
//@spec
    requires
        old(self).wf(),
        amount <= old(self).content().len(),
    ensures
        final(self).wf(),
        old(self).nlm() ==> final(self).nlm(),
        final(self).content() =~= old(self).content().skip(amount as int),
        final(self).end() == old(self).end(),
        final(self).is_eof == old(self).is_eof,
        !final(self).is_eof ==> final(self).primed(),
        final(self).align == old(self).align,
        final(self).filler == old(self).filler,
//@end
}

// a method call in place of std's, so that the body keeps its shape
trait Npot: Sized {
    spec fn as_int(&self) -> int;
    fn npot(self) -> (n: Self)
        requires 0 <= self.as_int() <= 0x1000_0000_0000_0000
        ensures n.as_int() >= self.as_int(), n.as_int() >= 1, self.as_int() >= 1 ==> n.as_int() < 2 * self.as_int(),
            self.as_int() == 0 ==> n.as_int() == 1;
}
impl Npot for usize {
    spec fn as_int(&self) -> int { *self as int }
    fn npot(self) -> (n: usize) { next_power_of_two(self) }
}

// vec![0; n]
fn zeroed(n: usize) -> (v: Vec<u8>)
    ensures v.len() == n
{ let mut v = Vec::new(); v.resize(n, 0u8); v }

