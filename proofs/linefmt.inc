// slice::split_at_mut
#[verifier::external_body]
fn split_at<'a>(dst: &'a mut [u8], n: usize) -> (res: (&'a mut [u8], &'a mut [u8]))
    requires
        n <= old(dst)@.len(),
    ensures
        res.0@ == old(dst)@.subrange(0, n as int),
        res.1@ == old(dst)@.subrange(n as int, old(dst)@.len() as int),
        final(dst)@ == final(res.0)@ + final(res.1)@,
        final(dst)@.len() == old(dst)@.len(),
{ dst.split_at_mut(n) }

// usize::leading_zeros
spec fn clz_of(x: usize, n: u32) -> bool {
    n <= 64 && (x == 0 <==> n == 64) && (n < 64 ==> x >> ((63 - n) as usize) == 1)
}
trait Clz: Sized {
    spec fn as_int(&self) -> usize;
    fn clz(self) -> (n: u32)
        ensures clz_of(self.as_int(), n);
}
impl Clz for usize {
    spec fn as_int(&self) -> usize { *self }
    #[verifier::external_body]
    fn clz(self) -> (n: u32) { self.leading_zeros() }
}

// bytes that the length of a record is shown in: at least two
spec fn span_bytes(len: int) -> nat {
    if len < 0x1_0000 { 2 } else if len < 0x100_0000 { 3 } else if len < 0x1_0000_0000 { 4 } else if len < 0x100_0000_0000 { 5 }
    else if len < 0x1_0000_0000_0000 { 6 } else { 7 }
}

proof fn lemma_span(len: usize, y: usize, n: u32)
    requires
        len < 0x100_0000_0000_0000,
        y == len | 0xffff,
        clz_of(y, n),
    ensures
        8 - (n as int) / 8 == span_bytes(len as int),
{
    assert(y >= 0xffff && y >= len) by(bit_vector) requires y == len | 0xffff;
    assert(len < 0x1_0000 ==> y < 0x1_0000) by(bit_vector) requires y == len | 0xffff;
    assert(len < 0x100_0000 ==> y < 0x100_0000) by(bit_vector) requires y == len | 0xffff;
    assert(len < 0x1_0000_0000 ==> y < 0x1_0000_0000) by(bit_vector) requires y == len | 0xffff;
    assert(len < 0x100_0000_0000 ==> y < 0x100_0000_0000) by(bit_vector) requires y == len | 0xffff;
    assert(len < 0x1_0000_0000_0000 ==> y < 0x1_0000_0000_0000) by(bit_vector) requires y == len | 0xffff;
    assert(len < 0x100_0000_0000_0000 ==> y < 0x100_0000_0000_0000) by(bit_vector) requires y == len | 0xffff;
    let s = (63 - n) as usize;
    assert(y >= 0xffff && y < 0x1_0000 ==> s == 15) by(bit_vector) requires y >> s == 1, s < 64;
    assert(y >= 0x1_0000 && y < 0x100_0000 ==> 16 <= s <= 23) by(bit_vector) requires y >> s == 1, s < 64;
    assert(y >= 0x100_0000 && y < 0x1_0000_0000 ==> 24 <= s <= 31) by(bit_vector) requires y >> s == 1, s < 64;
    assert(y >= 0x1_0000_0000 && y < 0x100_0000_0000 ==> 32 <= s <= 39) by(bit_vector) requires y >> s == 1, s < 64;
    assert(y >= 0x100_0000_0000 && y < 0x1_0000_0000_0000 ==> 40 <= s <= 47) by(bit_vector) requires y >> s == 1, s < 64;
    assert(y >= 0x1_0000_0000_0000 && y < 0x100_0000_0000_0000 ==> 48 <= s <= 55) by(bit_vector) requires y >> s == 1, s < 64;
}

spec fn blanks(n: int) -> Seq<u8> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| 32u8) }

// ---- one line: offset and length, the bytes, the characters
spec fn body_cols(src: Seq<u8>, width: int) -> Seq<u8> {
    seq![124u8, 32u8] + (hexbody(src) + blanks(3 * (width - src.len()))) + seq![124u8, 32u8] + (dotted(src) + blanks(width - src.len())) + seq![10u8]
}
spec fn line_hhh(src: Seq<u8>, offset: int, width: int) -> Seq<u8> {
    hexnum(offset, 6).push(32u8) + hexnum(src.len() as int, span_bytes(src.len() as int)).push(32u8) + body_cols(src, width)
}
spec fn line_ddh(src: Seq<u8>, offset: int, width: int) -> Seq<u8> {
    decnum(offset).push(32u8) + decnum(src.len() as int).push(32u8) + body_cols(src, width)
}

//@fn src/text/formatter/mod.rs format_line_hhh
//@sig fn format_line_hhh(dst: &mut [u8], src: &[u8], offset: usize, width: usize) -> usize
//@subst `.leading_zeros()` => `.clz()`
//@subst `dst.split_at_mut(16 + len_cols)` => `split_at(dst, 16 + len_cols)`
//@subst `dst.split_at_mut(3 * width)` => `split_at(dst, 3 * width)`
//@subst `dst.split_at_mut(2)` => `split_at(dst, 2)`
//@subst `dst.split_at_mut(width)` => `split_at(dst, width)`
//@spec
    requires
        src@.len() <= width <= MAXLEN / 8,
        old(dst)@.len() >= 4 * width + 40,
    ensures
        res == line_hhh(src@, offset as int, width as int).len(),
        final(dst)@.len() == old(dst)@.len(),
        res <= final(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= line_hhh(src@, offset as int, width as int),
//@before `let len_cols`
    proof {
        let l = src@.len() as usize;
        assert forall|n: u32| #[trigger] clz_of(l | 0xffff, n) implies 8 - (n as int) / 8 == span_bytes(l as int) by { lemma_span(l, l | 0xffff, n); }
    }
    let ghost d0 = dst@.len() as int;
//@before `format_hex_single(header, offset, 6);`
    let ghost h0 = hexnum(offset as int, 6);
    let ghost h1 = hexnum(src@.len() as int, len_active_bytes as nat);
//@before `header[14 + len_cols]`
    proof {
        assert(header@.subrange(0, 13) =~= h0.push(32u8));
    }
//@before `dst = rem;` 1
    proof {
        assert(header@ =~= h0.push(32u8) + h1.push(32u8) + seq![124u8, 32u8]);
    }
//@beforeloop 1
    let ghost (body0, mosaic0) = (hexbody(src@), dotted(src@));
//@loop 1
        invariant
            src@.len() <= width <= MAXLEN / 8,
            body@.len() == 3 * width,
            mosaic@.len() == width,
            forall|j: int| 0 <= j < 3 * src@.len() ==> #[trigger] body@[j] == body0[j],
            forall|j: int| 3 * src@.len() <= j < 3 * i ==> #[trigger] body@[j] == 32u8,
            forall|j: int| 0 <= j < src@.len() ==> #[trigger] mosaic@[j] == mosaic0[j],
            forall|j: int| src@.len() <= j < i ==> #[trigger] mosaic@[j] == 32u8,
//@exit
//@end

//@fn src/text/formatter/mod.rs format_line_ddh
//@sig fn format_line_ddh(dst: &mut [u8], src: &[u8], offset: usize, width: usize) -> usize
//@subst `dst[p + 2..].split_at_mut(3 * width)` => `split_at(&mut dst[p + 2..], 3 * width)`
//@subst `dst.split_at_mut(2)` => `split_at(dst, 2)`
//@subst `dst.split_at_mut(width)` => `split_at(dst, width)`
//@spec
    requires
        src@.len() <= width <= MAXLEN / 8,
        old(dst)@.len() >= 4 * width + 80,
    ensures
        res == line_ddh(src@, offset as int, width as int).len(),
        final(dst)@.len() == old(dst)@.len(),
        res <= final(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= line_ddh(src@, offset as int, width as int),
//@entry
    let ghost h0 = decnum(offset as int).push(32u8);
    let ghost h1 = decnum(src@.len() as int).push(32u8);
//@before `p += format_dec_single(` 2
    let ghost (p1, e1) = (p as int, dst@);
    proof { assert(dst@.subrange(0, p as int) =~= h0); }
//@before `dst[p] = `
    proof {
        assert(dst@.subrange(0, p1) =~= e1.subrange(0, p1));
        assert(dst@.subrange(p1, p as int) =~= h1);
        assert(dst@.subrange(0, p as int) =~= h0 + h1);
    }
//@beforeloop 1
    let ghost (body0, mosaic0) = (hexbody(src@), dotted(src@));
//@loop 1
        invariant
            src@.len() <= width <= MAXLEN / 8,
            body@.len() == 3 * width,
            mosaic@.len() == width,
            forall|j: int| 0 <= j < 3 * src@.len() ==> #[trigger] body@[j] == body0[j],
            forall|j: int| 3 * src@.len() <= j < 3 * i ==> #[trigger] body@[j] == 32u8,
            forall|j: int| 0 <= j < src@.len() ==> #[trigger] mosaic@[j] == mosaic0[j],
            forall|j: int| src@.len() <= j < i ==> #[trigger] mosaic@[j] == 32u8,
//@end

// ---- all the slices
spec fn sub(stream: Seq<u8>, s: Segment) -> Seq<u8> { stream.subrange(s.pos as int, s.end()) }
spec fn wide(s: Segment, min_width: int) -> int { if s.len > min_width { s.len as int } else { min_width } }

spec fn lines_hhh(offset: int, min_width: int, stream: Seq<u8>, segs: Seq<Segment>) -> Seq<u8>
    decreases segs.len()
{
    if segs.len() == 0 { Seq::empty() } else {
        lines_hhh(offset, min_width, stream, segs.drop_last())
            + line_hhh(sub(stream, segs.last()), offset + segs.last().pos, wide(segs.last(), min_width))
    }
}
spec fn lines_ddh(offset: int, min_width: int, stream: Seq<u8>, segs: Seq<Segment>) -> Seq<u8>
    decreases segs.len()
{
    if segs.len() == 0 { Seq::empty() } else {
        lines_ddh(offset, min_width, stream, segs.drop_last())
            + line_ddh(sub(stream, segs.last()), offset + segs.last().pos, wide(segs.last(), min_width))
    }
}
spec fn lines_bin(stream: Seq<u8>, segs: Seq<Segment>) -> Seq<u8>
    decreases segs.len()
{
    if segs.len() == 0 { Seq::empty() } else { lines_bin(stream, segs.drop_last()) + sub(stream, segs.last()) }
}

// every slice lies in the stream
spec fn inside(segs: Seq<Segment>, n: int) -> bool { forall|j: int| 0 <= j < segs.len() ==> (#[trigger] segs[j]).end() <= n }

proof fn lemma_take_segs(segs: Seq<Segment>, i: int)
    requires 0 <= i < segs.len()
    ensures segs.take(i + 1).drop_last() =~= segs.take(i), segs.take(i + 1).last() == segs[i]
{
}

//@foreach x = hhh ddh
struct Line_$x<'a> { src: &'a [u8], offset: usize, s: Segment, min_width: usize }
impl<'a> Writer for Line_$x<'a> {
    spec fn pre(&self, len: int) -> bool {
        &&& len >= 4 * wide(self.s, self.min_width as int) + 80
        &&& self.src@.len() == self.s.len
        &&& self.s.len <= MAXLEN / 8
        &&& self.min_width <= MAXLEN / 8
        &&& self.offset + self.s.pos <= usize::MAX
    }
    spec fn sure(&self) -> bool { true }
    type Wfin = ();
    #[verifier::prophetic]
    spec fn wfin(&self) -> Self::Wfin { () }
    spec fn post(&self, after: &Self, out: Seq<u8>) -> bool {
        out =~= line_$x(self.src@, self.offset + self.s.pos, wide(self.s, self.min_width as int))
    }
//@closure src/text/formatter/mod.rs format_segments_$x 1
//@sig fn call(&mut self, dst: &mut [u8]) -> Result<usize>
//@subst `let offset = offset + s.pos;` => `let offset = self.offset + self.s.pos;`
//@subst `unsafe { format_line_$x(dst, src, offset, s.len.max(min_width)) }` => `format_line_$x(dst, self.src, offset, max_usize(self.s.len, self.min_width))`
//@end
}

//@fn src/text/formatter/mod.rs format_segments_$x
//@subst `for s in segments {` => `for i in 0..segments.len() { let s = segments[i];`
//@subst `&stream[s.as_range()]` => `&stream[s.pos..s.tail()]`
//@subst `buf.fill_uninit(` => `let mut env = Line_$x { src, offset, s, min_width }; fill_uninit(buf, `
//@closurearg 1 => `&mut env`
//@spec
    requires
        inside(segments@, stream@.len() as int),
        inside(segments@, MAXLEN / 8),
        min_width <= MAXLEN / 8,
        offset + MAXLEN / 8 <= usize::MAX,
        // the text has a length (stated bound)
        old(buf)@.len() + lines_$x(offset as int, min_width as int, stream@, segments@).len() <= MAXLEN,
    ensures
        final(buf)@ =~= old(buf)@ + lines_$x(offset as int, min_width as int, stream@, segments@),
//@loop 1
            invariant
                inside(segments@, stream@.len() as int),
                inside(segments@, MAXLEN / 8),
                min_width <= MAXLEN / 8,
                offset + MAXLEN / 8 <= usize::MAX,
                old(buf)@.len() + lines_$x(offset as int, min_width as int, stream@, segments@).len() <= MAXLEN,
                buf@ =~= old(buf)@ + lines_$x(offset as int, min_width as int, stream@, segments@.take(i as int)),
//@loopstart 1
            proof {
                lemma_take_segs(segments@, i as int);
                lemma_len_$x(offset as int, min_width as int, stream@, segments@, i as int);
            }
//@before `let reserve`
            proof {
                let l = len as usize;
                assert(((l + 15) as usize) & !15usize >= l && ((l + 15) as usize) & !15usize <= l + 15) by(bit_vector) requires l < 0x100_0000_0000_0000usize;
            }
//@exit
        proof { assert(segments@.take(segments@.len() as int) =~= segments@); }
//@end

proof fn lemma_len_$x(offset: int, w: int, stream: Seq<u8>, segs: Seq<Segment>, i: int)
    requires 0 <= i <= segs.len()
    ensures lines_$x(offset, w, stream, segs.take(i)).len() <= lines_$x(offset, w, stream, segs).len()
    decreases segs.len() - i
{
    if i < segs.len() {
        lemma_take_segs(segs, i);
        lemma_len_$x(offset, w, stream, segs, i + 1);
    } else {
        assert(segs.take(i) =~= segs);
    }
}
//@endforeach

// ---- -F b: the bytes of the slices
#[verifier::external_body]
fn copy_slice(src: &[u8], dst: &mut [u8], n: usize)
    requires
        n <= src@.len(),
        n <= old(dst)@.len(),
    ensures
        final(dst)@ =~= src@.subrange(0, n as int) + old(dst)@.skip(n as int),
{ unimplemented!() }

struct BinEnv<'a> { stream: &'a [u8], s: Segment }
impl<'a> Writer for BinEnv<'a> {
    spec fn pre(&self, len: int) -> bool {
        &&& self.s.end() <= self.stream@.len()
        &&& len >= self.s.len
        &&& self.s.end() <= MAXLEN
    }
    spec fn sure(&self) -> bool { true }
    type Wfin = ();
    #[verifier::prophetic]
    spec fn wfin(&self) -> Self::Wfin { () }
    spec fn post(&self, after: &Self, out: Seq<u8>) -> bool { out =~= sub(self.stream@, self.s) }
//@closure src/text/formatter/mod.rs format_segments_binary 1
//@sig fn call(&mut self, dst: &mut [u8]) -> Result<usize>
//@subst `&stream[s.as_range()]` => `&self.stream[self.s.pos..self.s.tail()]`
//@subst `unsafe { std::ptr::copy_nonoverlapping(src.as_ptr(), dst.as_mut_ptr(), s.len) }` => `copy_slice(src, dst, self.s.len)`
//@subst `Ok(s.len)` => `Ok(self.s.len)`
//@end
}

//@fn src/text/formatter/mod.rs format_segments_binary
//@subst `for s in segments {` => `for i in 0..segments.len() { let s = segments[i];`
//@subst `buf.fill_uninit(` => `let mut env = BinEnv { stream, s }; fill_uninit(buf, `
//@closurearg 1 => `&mut env`
//@spec
    requires
        inside(segments@, stream@.len() as int),
        inside(segments@, MAXLEN),
        old(buf)@.len() + lines_bin(stream@, segments@).len() <= MAXLEN,
    ensures
        final(buf)@ =~= old(buf)@ + lines_bin(stream@, segments@),
//@loop 1
            invariant
                inside(segments@, stream@.len() as int),
                inside(segments@, MAXLEN),
                old(buf)@.len() + lines_bin(stream@, segments@).len() <= MAXLEN,
                buf@ =~= old(buf)@ + lines_bin(stream@, segments@.take(i as int)),
//@loopstart 1
            proof {
                lemma_take_segs(segments@, i as int);
                lemma_len_bin(stream@, segments@, i as int);
            }
//@exit
        proof { assert(segments@.take(segments@.len() as int) =~= segments@); }
//@end

proof fn lemma_len_bin(stream: Seq<u8>, segs: Seq<Segment>, i: int)
    requires 0 <= i <= segs.len()
    ensures lines_bin(stream, segs.take(i)).len() <= lines_bin(stream, segs).len()
    decreases segs.len() - i
{
    if i < segs.len() {
        lemma_take_segs(segs, i);
        lemma_len_bin(stream, segs, i + 1);
    } else {
        assert(segs.take(i) =~= segs);
    }
}

// ---- the choice of the formatter

#[derive(Clone, Copy)]
enum Fmt { Bin, Hhh, Ddh }

impl InoutFormat {
    spec fn fmt(&self) -> Fmt {
        if self.binary() { Fmt::Bin } else if self.offset is Decimal { Fmt::Ddh } else { Fmt::Hhh }
    }
    // the formats the command line lets through
    spec fn known(&self) -> bool {
        ||| self.binary()
        ||| self.body is Hexadecimal && (self.offset is Hexadecimal && self.span is Hexadecimal || self.offset is None && self.span is None
            || self.offset is Decimal && self.span is Decimal)
    }
}

//@struct src/text/formatter/mod.rs TextFormatter `FormatSegments` => `Fmt`

spec fn formatted(f: Fmt, offset: int, min_width: int, stream: Seq<u8>, segs: Seq<Segment>) -> Seq<u8> {
    match f {
        Fmt::Bin => lines_bin(stream, segs),
        Fmt::Hhh => lines_hhh(offset, min_width, stream, segs),
        Fmt::Ddh => lines_ddh(offset, min_width, stream, segs),
    }
}

// the call through the function pointer
fn format_dispatch(f: Fmt, offset: usize, min_width: usize, stream: &[u8], segments: &[Segment], buf: &mut Vec<u8>)
    requires
        inside(segments@, stream@.len() as int),
        inside(segments@, MAXLEN / 8),
        min_width <= MAXLEN / 8,
        offset + MAXLEN / 8 <= usize::MAX,
        old(buf)@.len() + formatted(f, offset as int, min_width as int, stream@, segments@).len() <= MAXLEN,
    ensures
        final(buf)@ =~= old(buf)@ + formatted(f, offset as int, min_width as int, stream@, segments@),
{
    match f {
        Fmt::Bin => format_segments_binary(offset, min_width, stream, segments, buf),
        Fmt::Hhh => format_segments_hhh(offset, min_width, stream, segments, buf),
        Fmt::Ddh => format_segments_ddh(offset, min_width, stream, segments, buf),
    }
}

impl TextFormatter {
//@fn src/text/formatter/mod.rs TextFormatter::new
//@subst `format_segments_binary` => `Fmt::Bin`
//@subst `format_segments_hhh` => `Fmt::Hhh` *
//@subst `format_segments_ddh` => `Fmt::Ddh`
//@subst `panic!("unsupported formatters: {:?}, {:?}, {:?}", format.offset, format.span, format.body)` => `unknown_format()`
//@spec
    requires format.known()
    ensures res.formatter == format.fmt(), res.offset == offset, res.min_width == format.cols
//@end

//@fn src/text/formatter/mod.rs TextFormatter::format_segments
//@subst `(self.formatter)(` => `format_dispatch(self.formatter, `
//@spec
    requires
        inside(segments@, stream@.len() as int),
        inside(segments@, MAXLEN / 8),
        self.min_width <= MAXLEN / 8,
        self.offset.0 + offset + MAXLEN / 8 <= usize::MAX,
        old(buf)@.len() + formatted(self.formatter, self.offset.0 + offset, self.min_width as int, stream@, segments@).len() <= MAXLEN,
    ensures
        final(buf)@ =~= old(buf)@ + formatted(self.formatter, self.offset.0 + offset, self.min_width as int, stream@, segments@),
//@end
}

fn unknown_format() -> Fmt requires false { Fmt::Bin }
