//@struct src/byte/patch.rs PatchFeeder

impl PatchFeeder {
//@fn src/byte/patch.rs PatchFeeder::new
//@spec
    requires parseable(*format), tok(patch)
    ensures res.src.wf(), res.src.recs() =~= text_recs(patch.rest(), *format)
//@end

    // the record at hand, if there is one, and those after it
    spec fn pending(&self) -> Seq<Rec> {
        if self.offset == usize::MAX { Seq::empty() }
        else { seq![Rec { off: self.offset as nat, span: self.span as nat, body: self.buf@ }] + self.src.recs() }
    }
    spec fn wf(&self) -> bool {
        &&& self.src.wf()
        &&& self.offset == usize::MAX || self.offset < MAXNUM
        &&& self.span < MAXNUM
        &&& self.offset == usize::MAX ==> self.src.recs().len() == 0
    }

//@fn src/byte/patch.rs PatchFeeder::fill_buf
//@spec
    requires old(self).src.wf()
    ensures
        res matches Ok((o, s)) ==> {
            &&& final(self).wf()
            &&& o == final(self).offset
            &&& s == final(self).span
            &&& final(self).pending() =~= old(self).src.recs()
        }
//@end

//@fn src/byte/patch.rs PatchFeeder::feed
//@spec
    requires
        old(self).wf(),
        old(self).offset != usize::MAX,
        offset == old(self).offset,
    ensures
        res matches Ok(s) ==> {
            &&& final(self).wf()
            &&& s == old(self).span
            &&& final(buf)@ =~= old(buf)@ + old(self).buf@
            &&& final(self).pending() =~= old(self).src.recs()
            &&& old(self).offset + s <= final(self).offset
        }
//@end
}

//@struct src/byte/patch.rs PatchStream

spec fn patch_rest(src: Seq<u8>, skip: int, at: int, pending: Seq<Rec>) -> Seq<u8> {
    if skip > src.len() { Seq::empty() } else { patched(src.skip(skip), at, pending) }
}

struct PatchEnv<'a> {
    src: &'a mut Box<dyn ByteStream>,
    patch: &'a mut PatchFeeder,
    skip: &'a mut usize,
    offset: &'a mut usize,
    total: Ghost<int>,
    room: Ghost<nat>,
}

// `offset` is the absolute position of the byte that comes `skip` bytes after the first one of the source
spec fn patch_ok(src: Box<dyn ByteStream>, patch: PatchFeeder, skip: usize, offset: usize, total: int) -> bool {
    &&& sok(src)
    &&& patch.wf()
    &&& skip < MAXNUM
    &&& offset + src.rest().len() == total + skip
    &&& total <= MAXLEN
    &&& offset <= patch.offset
}

impl<'a> Filler for PatchEnv<'a> {
    spec fn wf(&self, buf: Seq<u8>) -> bool {
        &&& patch_ok(*self.src, *self.patch, *self.skip, *self.offset, self.total@)
        &&& self.room@ == self.src.need() + BLOCK_SIZE
    }
    spec fn wf_end(&self, buf: Seq<u8>) -> bool { self.room@ == self.src.need() + BLOCK_SIZE }
    spec fn rest(&self) -> Seq<u8> { patch_rest(self.src.rest(), *self.skip as int, *self.offset as int, self.patch.pending()) }
    spec fn need(&self) -> nat { self.room@ }
    type Fin = (Box<dyn ByteStream>, PatchFeeder, usize, usize, int, nat);
    #[verifier::prophetic]
    spec fn fin(&self) -> Self::Fin { (*final(self.src), *final(self.patch), *final(self.skip), *final(self.offset), self.total@, self.room@) }

#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::exec_allows_no_decreases_clause]
//@closure src/byte/patch.rs ByteStream for PatchStream::fill_buf 1
//@sig fn call(&mut self, request: usize, buf: &mut Vec<u8>) -> Result<bool>
//@subst `self.skip` => `(*self.skip)` *
//@subst `self.offset` => `(*self.offset)` *
//@subst `let is_eof = loop {` => `let mut is_eof: bool = false; loop {`
//@subst `break true;` => `is_eof = true; break;`
//@subst `break false;` => `is_eof = false; break;` *
//@entry
        let ghost b0 = buf@;
        let ghost r0 = self.rest();
        let ghost total = self.total@;
//@loop 1
            invariant
                self.wf(b0),
                buf@ == b0,
                self.rest() =~= r0,
                self.total@ == total,
                self.fin() == old(self).fin(),
                self.room@ == old(self).room@,
//@loopstart 1
            let ghost s0 = self.src.rest();
            let ghost k0 = *self.skip as int;
//@after `self.src.consume(consume_len);`
            proof {
                if k0 <= s0.len() { assert(s0.skip(consume_len as int).skip(k0 - consume_len) =~= s0.skip(k0)); }
            }
//@before `let mut rem_len`
        let ghost S = self.src.rest();
        let ghost src1 = *self.src;
        let ghost a0 = *self.offset as int;
        proof {
            assert(S.skip(0) =~= S);
        }
//@after `buf.extend_from_slice(fwd_stream);`
                let ghost T = S.skip(pos);
                let ghost at0 = *self.offset - fwd_len;
                let ghost pend = self.patch.pending();
                proof {
                    lemma_patched_fwd(T, at0, pend, fwd_len as int);
                    assert(T.subrange(0, fwd_len as int) =~= S.subrange(pos, len as int).subrange(0, fwd_len as int));
                    assert(fwd_stream@ =~= T.subrange(0, fwd_len as int));
                    lemma_skip(S, pos, fwd_len as int);
                    pos = pos + fwd_len;
                    assert(buf@ + patched(S.skip(pos), *self.offset as int, pend) =~= b0 + r0);
                    assert(S.skip(len as int).skip(0) =~= S.skip(len as int));
                }
//@before `let patch_span`
                let ghost b1 = buf@;
                let ghost U = S.skip(pos);
                let ghost rec = pend[0];
                proof {
                    assert(rec.off == *self.offset);
                    assert(U.len() > 0);
                    assert(U.subrange(0, 0) =~= Seq::<u8>::empty());
                }
//@after `let patch_span = self.patch.feed((*self.offset), buf)?;`
                proof {
                    assert(pend.skip(1) =~= self.patch.pending());
                    assert(b1 + rec.body =~= buf@);
                }
//@before `(*self.skip) = patch_span - rem_len;`
                    proof {
                        let k = patch_span - rem_len;
                        assert(U.len() == S.len() - pos);
                        if patch_span <= U.len() {
                            assert(S.skip(len as int).skip(k) =~= U.skip(patch_span as int));
                        }
                    }
//@after `let (_, rem_stream) = rem_stream.split_at(patch_span);`
                proof {
                    lemma_skip(S, pos, patch_span as int);
                    pos = pos + patch_span;
                }
//@beforeloop 2
        let ghost mut pos: int = 0;
        proof {
            assert(stream@.subrange(0, rem_len as int) =~= S.subrange(pos, len as int));
            assert(patched(S.skip(0), *self.offset as int, self.patch.pending()) =~= r0);
            assert(S.skip(pos) =~= S);
        }
//@loop 2
            invariant_except_break
                0 <= pos, pos + rem_len == len,
                *self.offset == a0 + pos,
                *self.skip == 0,
                len > 0 ==> rem_len > 0,
                stream.len() >= rem_len,
                stream@.subrange(0, rem_len as int) =~= S.subrange(pos, len as int),
                buf@ + patched(S.skip(pos), *self.offset as int, self.patch.pending()) =~= b0 + r0,
            invariant
                *self.src == src1,
                self.patch.wf(),
                self.total@ == total,
                self.fin() == old(self).fin(),
                self.room@ == old(self).room@,
                self.offset <= self.patch.offset,
                buf.len() >= b0.len(),
            ensures
                is_eof ==> buf@ =~= b0 + r0,
                is_eof ==> len == 0 && S.len() == 0,
                !is_eof ==> buf@ + patch_rest(S.skip(len as int), *self.skip as int, *self.offset as int, self.patch.pending()) =~= b0 + r0,
                !is_eof ==> *self.skip < MAXNUM && *self.offset == a0 + len + *self.skip,
//@loopstart 3
                    let ghost b1 = buf@;
                    let ghost pend = self.patch.pending();
                    let ghost rec = pend[0];
                    proof {
                        assert(rec.off == *self.offset);
                        assert(pend.skip(1) =~= self.patch.src.recs());
                    }
//@after `(*self.offset) += self.patch.feed((*self.offset), buf)?;`
                    proof {
                        assert(buf@ =~= b1 + rec.body);
                        assert(pend.skip(1) =~= self.patch.pending());
                        assert(patched(Seq::empty(), rec.off as int, pend) =~= rec.body + patched(Seq::empty(), *self.offset as int, self.patch.pending()));
                    }
//@loop 3
                    invariant
                        *self.src == src1,
                        self.patch.wf(),
                        self.total@ == total,
                        self.fin() == old(self).fin(),
                        self.room@ == old(self).room@,
                        self.offset <= self.patch.offset,
                        *self.offset <= 2 * MAXNUM,
                        buf.len() >= b0.len(),
                        buf@ + patched(Seq::empty(), *self.offset as int, self.patch.pending()) =~= b0 + r0,
//@end
}

impl PatchStream {
    spec fn records(&self) -> Seq<Rec> { if self.is_primed { self.patch.pending() } else { self.patch.src.recs() } }
    spec fn more(&self) -> Seq<u8> { patch_rest(self.src.rest(), self.skip as int, self.offset as int, self.records()) }

//@fn src/byte/patch.rs PatchStream::new
//@spec
    requires
        sok(src),
        parseable(*format),
        tok(patch),
        src.need() + BLOCK_SIZE + 16 * MAXLEN + 64 <= MAXREQ,
        patched(src.rest(), 0, text_recs(patch.rest(), *format)).len() <= MAXLEN,
    ensures
        res.wf(),
        res.rest() =~= patched(src.rest(), 0, text_recs(patch.rest(), *format)),
        res.need() == src.need() + BLOCK_SIZE + 1,
//@entry
        proof { assert(src.rest().skip(0) =~= src.rest()); }
//@end
}

impl ByteStream for PatchStream {
    spec fn wf(&self) -> bool {
        &&& self.buf.wf()
        &&& self.buf.align == 1
        &&& !self.is_primed ==> self.patch.src.wf()
        &&& self.src.need() + BLOCK_SIZE + 16 * MAXLEN + 64 <= MAXREQ
        &&& !self.buf.is_eof ==> {
            &&& patch_ok(self.src, self.patch, self.skip, self.offset, self.offset + self.src.rest().len() - self.skip) || !self.is_primed
            &&& !self.is_primed ==> sok(self.src) && self.skip == 0 && self.offset == 0
            &&& self.buf.end() + self.more().len() <= MAXLEN
        }
    }
    spec fn rest(&self) -> Seq<u8> {
        if self.buf.is_eof { self.buf.content() } else { self.buf.content() + self.more() }
    }
    spec fn ended(&self) -> bool { self.buf.is_eof }
    spec fn avail(&self) -> int { self.buf.content().len() as int }
    spec fn nl(&self) -> bool { false }
    spec fn filled(&self) -> bool { true }
    spec fn need(&self) -> nat { (self.src.need() + BLOCK_SIZE + 1) as nat }

//@fn src/byte/patch.rs ByteStream for PatchStream::fill_buf
//@closurearg 1 => `&mut env`
//@before `self.buf.fill_buf(`
        let ghost total = self.offset + self.src.rest().len() - self.skip;
        let ghost room = (self.src.need() + BLOCK_SIZE) as nat;
        let ghost r0 = self.rest();
        proof {
            assert(r0 =~= old(self).rest());
        }
        let mut env = PatchEnv { src: &mut self.src, patch: &mut self.patch, skip: &mut self.skip, offset: &mut self.offset,
            total: Ghost(total), room: Ghost(room) };
        proof {
            assert(forall|t: int| t >= 0 ==> #[trigger] pad_len(t, 1) == 0);
            assert(self.buf.padding(env.rest()) =~= Seq::<u8>::empty());
            assert(self.buf.future(env.rest()) =~= r0);
        }
//@tail `self.buf.fill_buf(`
        proof {
            if let Ok((e, n)) = ret {
                assert(self.buf.padding(self.more()) =~= Seq::<u8>::empty());
                assert(self.buf.future(self.more()) =~= r0);
            }
        }
//@end
//@fn src/byte/patch.rs ByteStream for PatchStream::as_slice
//@end
//@fn src/byte/patch.rs ByteStream for PatchStream::consume
//@end
}
