//@struct src/byte/text.rs GaplessTextStream

struct GaplessEnv<'a> {
    inner: &'a mut TextParser,
}

impl<'a> Filler for GaplessEnv<'a> {
    spec fn wf(&self, buf: Seq<u8>) -> bool { self.inner.wf() }
    spec fn wf_end(&self, buf: Seq<u8>) -> bool { true }
    spec fn rest(&self) -> Seq<u8> { bodies(self.inner.recs()) }
    spec fn need(&self) -> nat { 0 }
    type Fin = TextParser;
    #[verifier::prophetic]
    spec fn fin(&self) -> Self::Fin { *final(self.inner) }

//@closure src/byte/text.rs ByteStream for GaplessTextStream::fill_buf 1
//@sig fn call(&mut self, request: usize, buf: &mut Vec<u8>) -> Result<bool>
//@end
}

//@include padded.inc

impl GaplessTextStream {
//@fn src/byte/text.rs GaplessTextStream::new
//@spec
    requires
        1 <= align <= MAXLEN,
        parseable(*format),
        tok(src),
        format.gapless(),
        bodies(text_recs(src.rest(), *format)).len() + align <= MAXLEN,
    ensures
        res.wf(),
        res.rest() =~= padded(bodies(text_recs(src.rest(), *format)), align as int, filler),
//@end
}

impl ByteStream for GaplessTextStream {
    spec fn wf(&self) -> bool {
        &&& self.buf.wf()
        &&& !self.buf.is_eof ==> self.inner.wf()
        &&& !self.buf.is_eof ==> self.buf.end() + bodies(self.inner.recs()).len() + self.buf.align <= MAXLEN
    }
    spec fn rest(&self) -> Seq<u8> { self.buf.future(bodies(self.inner.recs())) }
    spec fn ended(&self) -> bool { self.buf.is_eof }
    spec fn avail(&self) -> int { self.buf.content().len() as int }
    spec fn nl(&self) -> bool { false }
    spec fn filled(&self) -> bool { true }
    spec fn need(&self) -> nat { 1 }
//@fn src/byte/text.rs ByteStream for GaplessTextStream::fill_buf
//@closurearg 1 => `&mut env`
//@entry
        let mut env = GaplessEnv { inner: &mut self.inner };
//@end
//@fn src/byte/text.rs ByteStream for GaplessTextStream::as_slice
//@end
//@fn src/byte/text.rs ByteStream for GaplessTextStream::consume
//@end
}

//@struct src/byte/text.rs TextFeeder

impl TextFeeder {
    spec fn pending(&self) -> Seq<Rec> {
        if self.offset == usize::MAX { Seq::empty() }
        else { seq![Rec { off: self.offset as nat, span: self.span as nat, body: self.buf@ }] + self.src.recs() }
    }
    spec fn wf(&self) -> bool {
        &&& self.src.wf()
        &&& self.offset == usize::MAX || self.offset < MAXNUM
        &&& self.span < MAXNUM
        &&& self.offset == usize::MAX ==> self.src.recs().len() == 0
    }
//@fn src/byte/text.rs TextFeeder::new
//@spec
    requires parseable(*format), tok(src), !format.gapless()
    ensures res.src.wf(), res.src.recs() =~= text_recs(src.rest(), *format)
//@end

//@fn src/byte/text.rs TextFeeder::fill_buf
//@spec
    requires old(self).src.wf()
    ensures
        res matches Ok((e, o)) ==> {
            &&& final(self).wf()
            &&& o == final(self).offset
            &&& e == (final(self).offset == usize::MAX)
            &&& final(self).pending() =~= old(self).src.recs()
        }
//@end
}

//@struct src/byte/text.rs TextStream

struct TextEnv<'a> {
    line: &'a mut TextFeeder,
    offset: &'a mut usize,
    filler: u8,
}

impl<'a> Filler for TextEnv<'a> {
    spec fn wf(&self, buf: Seq<u8>) -> bool {
        &&& self.line.wf()
        &&& *self.offset <= self.line.offset
        &&& *self.offset <= 2 * MAXNUM
    }
    spec fn wf_end(&self, buf: Seq<u8>) -> bool { true }
    spec fn rest(&self) -> Seq<u8> { placed(*self.offset as int, self.line.pending(), self.filler) }
    spec fn need(&self) -> nat { 0 }
    type Fin = (TextFeeder, usize, u8);
    #[verifier::prophetic]
    spec fn fin(&self) -> Self::Fin { (*final(self.line), *final(self.offset), self.filler) }

//@closure src/byte/text.rs ByteStream for TextStream::fill_buf 1
//@sig fn call(&mut self, request: usize, buf: &mut Vec<u8>) -> Result<bool>
//@subst `self.offset` => `(*self.offset)` *
//@subst `, filler);` => `, self.filler);`
//@entry
        let ghost b0 = buf@;
        let ghost r0 = self.rest();
        let ghost at = *self.offset as int;
        let ghost pend = self.line.pending();
        let ghost fl = self.filler;
//@before `if fwd_len == BLOCK_SIZE`
        let ghost b1 = buf@;
        proof {
            assert(forall|j: int| 0 <= j < b0.len() ==> b1[j] == b0[j]);
            assert(b1 =~= b0 + fill_seq(fwd_len as int, fl));
            assert(fill_seq(pend[0].off - at, fl) =~= fill_seq(fwd_len as int, fl) + fill_seq(pend[0].off - *self.offset, fl));
            assert(r0 =~= fill_seq(fwd_len as int, fl) + placed(*self.offset as int, pend, fl));
        }
//@after `buf.extend_from_slice(&self.line.buf);`
        let ghost b2 = buf@;
        proof {
            assert(b2 =~= b1 + pend[0].body);
            assert(fill_seq(0, fl) =~= Seq::<u8>::empty());
        }
//@after `let (is_eof, next_offset) = self.line.fill_buf()?;`
        proof {
            assert(self.line.pending() =~= pend.skip(1));
            assert(b2 + placed(*self.offset as int, pend.skip(1), fl) =~= b0 + r0);
        }
//@end
}

impl TextStream {
    spec fn records(&self) -> Seq<Rec> { if self.is_primed { self.line.pending() } else { self.line.src.recs() } }
    spec fn more(&self) -> Seq<u8> { placed(self.offset as int, self.records(), self.buf.filler) }

//@fn src/byte/text.rs TextStream::new
//@spec
    requires
        1 <= align <= MAXLEN,
        parseable(*format),
        tok(src),
        !format.gapless(),
        placed(0, text_recs(src.rest(), *format), filler).len() + align <= MAXLEN,
    ensures
        res.wf(),
        res.rest() =~= padded(placed(0, text_recs(src.rest(), *format), filler), align as int, filler),
//@end
}

impl ByteStream for TextStream {
    spec fn wf(&self) -> bool {
        &&& self.buf.wf()
        &&& !self.is_primed ==> self.line.src.wf()
        &&& !self.buf.is_eof ==> {
            &&& self.is_primed ==> self.line.wf() && self.offset <= self.line.offset && self.offset <= 2 * MAXNUM
            &&& !self.is_primed ==> self.offset == 0
            &&& self.buf.end() + self.more().len() + self.buf.align <= MAXLEN
        }
    }
    spec fn rest(&self) -> Seq<u8> { self.buf.future(self.more()) }
    spec fn ended(&self) -> bool { self.buf.is_eof }
    spec fn avail(&self) -> int { self.buf.content().len() as int }
    spec fn nl(&self) -> bool { false }
    spec fn filled(&self) -> bool { true }
    spec fn need(&self) -> nat { 1 }

//@fn src/byte/text.rs ByteStream for TextStream::fill_buf
//@closurearg 1 => `&mut env`
//@before `self.buf.fill_buf(`
        let ghost r0 = self.rest();
        proof { assert(r0 =~= old(self).rest()); }
        let mut env = TextEnv { line: &mut self.line, offset: &mut self.offset, filler };
//@end
//@fn src/byte/text.rs ByteStream for TextStream::as_slice
//@end
//@fn src/byte/text.rs ByteStream for TextStream::consume
//@end
}
