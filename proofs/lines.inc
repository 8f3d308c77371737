//@include recfmt.inc
// ---- the text parser
// FillUninit::fill_uninit_on_option_with_ret for Vec<u8>: assumed here (unsafe code); a bounded harness runs the real one
trait OptWriter: Sized {
    type Ret;
    spec fn pre(&self, len: int) -> bool;
    spec fn post(&self, out: Option<(Self::Ret, Seq<u8>)>) -> bool;
    fn call(&self, arr: &mut [u8]) -> (res: Option<(Self::Ret, usize)>)
        requires
            self.pre(old(arr)@.len() as int),
        ensures
            final(arr)@.len() == old(arr)@.len(),
            res is None ==> self.post(None),
            res matches Some((r, n)) ==> n <= old(arr)@.len() && self.post(Some((r, final(arr)@.take(n as int))));
}

#[verifier::external_body]
fn fill_uninit_on_option<W: OptWriter>(buf: &mut Vec<u8>, len: usize, f: &W) -> (res: Option<(W::Ret, usize)>)
    requires
        f.pre(len as int),
        old(buf).len() + len <= 8 * MAXLEN,
    ensures
        res is None ==> f.post(None) && final(buf)@ == old(buf)@,
        res matches Some((r, n)) ==> {
            &&& n <= len
            &&& exists|out: Seq<u8>| #![trigger f.post(Some((r, out)))] out.len() == n && final(buf)@ == old(buf)@ + out && f.post(Some((r, out)))
        },
{ unimplemented!() }

trait OptOk: Sized {
    type T;
    spec fn val(&self) -> Option<Self::T>;
    fn okay(self) -> (res: Result<Self::T>)
        ensures res is Err <==> self.val() is None, res matches Ok(x) ==> self.val() == Some(x);
}
impl<T> OptOk for Option<T> {
    type T = T;
    spec fn val(&self) -> Option<T> { *self }
    fn okay(self) -> (res: Result<T>) { match self { Some(x) => Ok(x), None => Err(any_error()) } }
}

fn split_ref<'a>(s: &'a [u8], n: usize) -> (res: (&'a [u8], &'a [u8]))
    requires n <= s@.len()
    ensures res.0@ == s@.subrange(0, n as int), res.1@ == s@.subrange(n as int, s@.len() as int)
{ (slice_subrange(s, 0, n), slice_subrange(s, n, s.len())) }

// the crate memchr: assumed
#[verifier::external_body]
fn memchr(c: u8, s: &[u8]) -> (res: Option<usize>)
    ensures
        res is None <==> first(s@, c, 0) == s@.len(),
        res matches Some(i) ==> i == first(s@, c, 0) && i < s@.len(),
{ unimplemented!() }

// four bytes in the little-endian order
#[verifier::external_body]
fn le32(a: &[u8]) -> (res: u32)
    requires a@.len() == 4
    ensures res == a@[0] as u32 | (a@[1] as u32) << 8 | (a@[2] as u32) << 16 | (a@[3] as u32) << 24
{ unimplemented!() }

proof fn lemma_le32(a: u8, b: u8, c: u8, e: u8)
    ensures ({
        let w = a as u32 | (b as u32) << 8 | (c as u32) << 16 | (e as u32) << 24;
        &&& w & 0xff == a
        &&& (w & 0xffffff == 0x00207c20 <==> a == 0x20 && b == 0x7c && c == 0x20)
    })
{
    assert((a as u32 | (b as u32) << 8 | (c as u32) << 16 | (e as u32) << 24) & 0xff == a) by(bit_vector);
    assert((a as u32 | (b as u32) << 8 | (c as u32) << 16 | (e as u32) << 24) & 0xffffff == 0x00207c20 <==> a == 0x20 && b == 0x7c && c == 0x20) by(bit_vector);
}

// the heads of the latest lines, for error messages: opaque; append reads 32 bytes from the pointer (unsafe code)
struct LineCache { opaque: usize }
impl LineCache {
    #[verifier::external_body]
    fn new() -> LineCache { unimplemented!() }
    #[verifier::external_body]
    fn append(&mut self, stream: &[u8])
        requires stream@.len() >= 32
    { unimplemented!() }
}

//@struct src/text/parser/mod.rs TextParser `parse_offset: ParseSingle` => `parse_offset: PNum` `parse_span: ParseSingle` => `parse_span: PNum` `parse_body: ParseBody` => `parse_body: PBody`

// the calls through the function pointers
fn number_dispatch(f: PNum, src: &[u8]) -> (res: Option<(u64, usize)>)
    requires src@.len() >= 16
    ensures
        res is None <==> number(f, src@) is None,
        res matches Some((v, n)) ==> number(f, src@) == Some((v as int, n as int)) && v < MAXNUM && n < src@.len(),
{
    match f { PNum::Hex => parse_hex_single(src), PNum::Dec => parse_dec_single(src) }
}
fn body_dispatch(f: PBody, is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> (res: Option<((usize, usize), usize)>)
    requires
        src@.len() >= SPAN,
        old(dst)@.len() >= 64,
    ensures
        final(dst)@.len() == old(dst)@.len(),
        parsed_block(is_in_tail, src@, match res { None => None, Some((r, n)) => Some((r, final(dst)@.take(n as int))) }),
        res matches Some((r, n)) ==> n <= 64,
{
    match f { PBody::Hex => parse_hex_body(is_in_tail, src, dst) }
}

// one read of the array parser
spec fn parsed_block(is_in_tail: bool, src: Seq<u8>, out: Option<((usize, usize), Seq<u8>)>) -> bool {
    let blk = src.take(SPAN);
    let nl = first(blk, 10, 0);
    let bar = least(first(blk, 124, 0), nl);
    if is_in_tail { out matches Some(((a, b), t)) && a == nl && b == 0 && t.len() == 0 }
    else {
        &&& out is None <==> columns(blk.take(bar), 0) is None
        &&& out matches Some(((a, b), t)) ==> a == nl && b == bar && t.len() <= 64 && columns(blk.take(bar), 0) == Some(t)
    }
}

struct BodyEnv<'a> { parse_body: PBody, is_in_tail: bool, stream: &'a [u8] }
impl<'a> OptWriter for BodyEnv<'a> {
    type Ret = (usize, usize);
    spec fn pre(&self, len: int) -> bool { self.stream@.len() >= SPAN && len >= 64 }
    spec fn post(&self, out: Option<(Self::Ret, Seq<u8>)>) -> bool { parsed_block(self.is_in_tail, self.stream@, out) }
//@closure src/text/parser/mod.rs TextParser::read_body 1
//@sig fn call(&self, arr: &mut [u8]) -> Option<((usize, usize), usize)>
//@subst `(self.parse_body)(is_in_tail, stream, arr)` => `body_dispatch(self.parse_body, self.is_in_tail, self.stream, arr)`
//@end
}
struct BodyTailEnv<'a> { parse_body: PBody, is_in_tail: bool, stream: &'a [u8] }
impl<'a> OptWriter for BodyTailEnv<'a> {
    type Ret = (usize, usize);
    spec fn pre(&self, len: int) -> bool { self.stream@.len() >= SPAN && len >= 64 }
    spec fn post(&self, out: Option<(Self::Ret, Seq<u8>)>) -> bool { parsed_block(self.is_in_tail, self.stream@, out) }
//@closure src/text/parser/mod.rs TextParser::read_body 2
//@sig fn call(&self, arr: &mut [u8]) -> Option<((usize, usize), usize)>
//@subst `(self.parse_body)(is_in_tail, stream, arr)` => `body_dispatch(self.parse_body, self.is_in_tail, self.stream, arr)`
//@end
}

proof fn lemma_columns_len(s: Seq<u8>, i: int)
    requires 0 <= i, 3 * i <= s.len()
    ensures columns(s, i) matches Some(t) ==> t.len() <= s.len() - 3 * i
    decreases s.len() - 3 * i
{
    reveal_with_fuel(columns, 2);
    if 3 * i + 3 <= s.len() { lemma_columns_len(s, i + 1); }
}

// what one read tells about the line: `line` is what is left of it
spec fn block_fact(in_tail: bool, line: Seq<u8>, out: Option<((usize, usize), Seq<u8>)>) -> bool {
    &&& out is None ==> tail_array(in_tail, line) is None
    &&& out matches Some(((a, b), t)) ==> {
            let k = least(line.len() as int, SPAN);
            let next = tail_array(in_tail || b < SPAN, line.skip(k));
            &&& a == k
            &&& b <= k
            &&& in_tail ==> b == 0
            &&& t.len() <= k
            &&& tail_array(in_tail, line) is None <==> next is None
            &&& tail_array(in_tail, line) matches Some(u) ==> u =~= t + next->0
        }
}
proof fn lemma_block(in_tail: bool, src: Seq<u8>, line: Seq<u8>, out: Option<((usize, usize), Seq<u8>)>)
    requires
        src.len() >= SPAN,
        parsed_block(in_tail, src, out),
        forall|j: int| 0 <= j < line.len() ==> line[j] != 10,
        forall|j: int| 0 <= j < line.len() && j < SPAN ==> line[j] == src[j],
        line.len() < SPAN ==> src[line.len() as int] == 10,
    ensures block_fact(in_tail, line, out)
{
    let blk = src.take(SPAN);
    let k = least(line.len() as int, SPAN);
    lemma_first_is(blk, 10, k);
    if !in_tail {
        let lb = line.take(k);
        lemma_first(blk, 124, 0);
        let bar = least(first(blk, 124, 0), k);
        assert forall|j: int| 0 <= j < bar implies lb[j] != 124 by { assert(lb[j] == blk[j]); }
        lemma_first_is(lb, 124, bar);
        assert(lb.take(bar) =~= blk.take(bar));
        if line.len() == SPAN { lemma_array_empty(line.skip(SPAN)); }
        lemma_columns_len(blk.take(bar), 0);
    }
}

// a text source
spec fn tok(src: Box<dyn ByteStream>) -> bool { sok(src) && src.nl() }

impl TextParser {
    spec fn wf(&self) -> bool { tok(self.src) }
    spec fn recs(&self) -> Seq<Rec> { records_of(self.parse_offset, self.parse_span, self.src.rest()) }

//@fn src/text/parser/mod.rs TextParser::new
//@subst `parse_hex_single` => `PNum::Hex` *
//@subst `parse_dec_single` => `PNum::Dec` *
//@subst `parse_hex_body` => `PBody::Hex` *
//@subst `panic!("unsupported parser for header.offset: {:?}", &format.offset)` => `no_number()`
//@subst `panic!("unsupported parser for header.span: {:?}", &format.span)` => `no_number()`
//@subst `panic!("unsupported parser for header.body: {:?}", &format.span)` => `no_body()`
//@spec
    requires parseable(*format), tok(src)
    ensures res.wf(), res.recs() == text_recs(src.rest(), *format)
//@end

//@fn src/text/parser/mod.rs TextParser::read_head
//@subst `(self.parse_offset)(` => `number_dispatch(self.parse_offset, `
//@subst `(self.parse_span)(` => `number_dispatch(self.parse_span, `
//@subst `&stream[fwd1 + 1..]` => `slice_subrange(stream, fwd1 + 1, stream.len())`
//@spec
    requires
        exists|k: int| 0 <= k && k + 64 <= stream@.len() && stream@[k] == 10,
    ensures
        res is None <==> head(self.parse_offset, self.parse_span, stream@) is None,
        res matches Some((k, o, l)) ==> head(self.parse_offset, self.parse_span, stream@) == Some((k as int, o as int, l as int)),
//@entry
        let ghost k = choose|k: int| 0 <= k && k + 64 <= stream@.len() && stream@[k] == 10;
        proof { lemma_number(self.parse_offset, stream@, k); }
//@end

#[verifier::loop_isolation(false)]
//@fn src/text/parser/mod.rs TextParser::read_body
//@closurearg 1 => `&env`
//@closurearg 1 => `&env`
//@subst `buf.fill_uninit_on_option_with_ret(` => `fill_uninit_on_option(buf, ` *
//@subst `stream.split_at(` => `split_ref(stream, `
//@spec
    requires
        stream@.len() >= len + MARGIN_SIZE,
        first(stream@, 10, 0) <= len,
        old(buf)@.len() + len <= 4 * MAXLEN,
        len <= MAXLEN,
    ensures
        ({
            let k = first(stream@, 10, 0);
            let r = tail_array(is_in_tail, stream@.take(k));
            &&& res is None ==> r is None
            &&& res matches Some((fwd, t, eol, refeed)) ==> !refeed && fwd == k && eol == (k < len)
                && r is Some && final(buf)@ =~= old(buf)@ + r->0
        }),
//@entry
        proof { lemma_first(stream@, 10, 0); }
        let ghost k = first(stream@, 10, 0);
        let ghost line = stream@.take(k);
        let ghost s0 = stream@;
        let ghost t0 = is_in_tail;
        let ghost mut at: int = 0;
        proof { assert(line.skip(0) =~= line); }
//@loop 1
            invariant
                0 <= at <= k <= len,
                at == len - rem_len,
                s0.len() >= len + MARGIN_SIZE,
                k < s0.len(), s0[k] == 10,
                forall|j: int| 0 <= j < k ==> s0[j] != 10,
                line == s0.take(k),
                stream@ =~= s0.skip(at),
                old(buf)@.len() + len <= 4 * MAXLEN,
                old(buf)@.len() <= buf@.len() <= old(buf)@.len() + at,
                buf@.subrange(0, old(buf)@.len() as int) =~= old(buf)@,
                ({
                    let next = tail_array(is_in_tail, line.skip(at));
                    &&& tail_array(t0, line) is None <==> next is None
                    &&& tail_array(t0, line) matches Some(u) ==> u =~= buf@.skip(old(buf)@.len() as int) + next->0
                }),
            decreases rem_len
//@before `let ret =` 1
            let env = BodyEnv { parse_body: self.parse_body, is_in_tail, stream };
            let ghost b0 = buf@;
            let ghost tl = is_in_tail;
            let ghost lr = line.skip(at);
            proof {
                assert forall|out: Option<((usize, usize), Seq<u8>)>| #[trigger] env.post(out) implies block_fact(tl, lr, out) by {
                    lemma_block(tl, stream@, lr, out);
                }
            }
//@before `let (scanned, parsed) = ret.0;` 1
            let ghost out = buf@.skip(b0.len() as int);
            proof {
                assert(buf@ =~= b0 + out);
                assert(exists|o: Seq<u8>| #![trigger env.post(Some((ret.0, o)))] buf@ == b0 + o && env.post(Some((ret.0, o))));
                let o = choose|o: Seq<u8>| #![trigger env.post(Some((ret.0, o)))] buf@ == b0 + o && env.post(Some((ret.0, o)));
                assert(o =~= out);
                assert(block_fact(tl, lr, Some((ret.0, out))));
            }
//@after `let (_, rem_stream) = split_ref(stream, scanned);`
            proof {
                at = at + scanned;
                assert(lr.skip(scanned as int) =~= line.skip(at));
                assert(buf@.skip(old(buf)@.len() as int) =~= b0.skip(old(buf)@.len() as int) + out);
            }
//@before `let ret =` 2
            let env = BodyTailEnv { parse_body: self.parse_body, is_in_tail, stream };
            let ghost b0 = buf@;
            let ghost tl = is_in_tail;
            let ghost lr = line.skip(at);
            proof {
                assert forall|out: Option<((usize, usize), Seq<u8>)>| #[trigger] env.post(out) implies block_fact(tl, lr, out) by {
                    lemma_block(tl, stream@, lr, out);
                }
            }
//@before `let (scanned, parsed) = ret.0;` 2
            let ghost out = buf@.skip(b0.len() as int);
            proof {
                let o = choose|o: Seq<u8>| #![trigger env.post(Some((ret.0, o)))] buf@ == b0 + o && env.post(Some((ret.0, o)));
                assert(o =~= out);
                assert(block_fact(tl, lr, Some((ret.0, out))));
                lemma_array_empty(lr.skip(least(lr.len() as int, SPAN)));
                assert(buf@.skip(old(buf)@.len() as int) =~= b0.skip(old(buf)@.len() as int) + out);
            }
//@exit
//@end

#[verifier::exec_allows_no_decreases_clause]
//@fn src/text/parser/mod.rs TextParser::read_line_continued
//@subst `.with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))` => `.okay()`
//@subst `stream.split_at(` => `split_ref(stream, `
//@spec
    requires
        old(self).wf(),
        old(self).src.rest().len() == 0,
    ensures
        res matches Ok(x) ==> {
            &&& x == Some((offset, span))
            &&& final(buf)@ == old(buf)@
            &&& final(self).wf()
            &&& final(self).src.rest().len() == 0
            &&& final(self).parse_offset == old(self).parse_offset
            &&& final(self).parse_span == old(self).parse_span
        }
//@loop 1
            invariant false
//@end

#[verifier::exec_allows_no_decreases_clause]
//@fn src/text/parser/mod.rs TextParser::fill_line
//@subst `memchr::memchr(` => `memchr(`
//@subst `&self.src.as_slice()[..len]` => `slice_subrange(self.src.as_slice(), 0, len)`
//@spec
    requires
        old(self).wf(),
    ensures
        final(self).parse_offset == old(self).parse_offset,
        final(self).parse_span == old(self).parse_span,
        final(self).parse_body == old(self).parse_body,
        res matches Ok((e, n)) ==> {
            &&& final(self).wf()
            &&& final(self).src.filled()
            &&& final(self).src.rest() == old(self).src.rest()
            &&& n == final(self).src.avail()
            &&& n <= final(self).src.rest().len()
            &&& e ==> n == final(self).src.rest().len()
            // the whole line is there
            &&& !e ==> first(final(self).src.rest(), 10, 0) < n
        }
//@loop 1
            invariant
                self.wf(),
                self.src.rest() =~= old(self).src.rest(),
                self.parse_offset == old(self).parse_offset,
                self.parse_span == old(self).parse_span,
                self.parse_body == old(self).parse_body,
                request <= 2 * MAXLEN,
//@after `let (is_eof, len) = self.src.fill_buf(request)?;`
            proof {
                let h = self.src.rest().take(len as int);
                lemma_first(h, 10, 0);
                let r = self.src.rest();
                if first(h, 10, 0) < len {
                    assert forall|j: int| 0 <= j < first(h, 10, 0) implies #[trigger] r[j] != 10 by { assert(h[j] == r[j]); }
                    lemma_first_is(r, 10, first(h, 10, 0));
                }
            }
//@end

#[verifier::loop_isolation(false)]
//@fn src/text/parser/mod.rs TextParser::read_line
//@subst `.with_context(|| format!("failed to parse the header at record {}", &self.cache.format(false)))` => `.okay()`
//@subst `.with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))` => `.okay()`
//@subst `let mut delims = [0u8; 4]; delims.copy_from_slice(&stream[fwd..fwd + 4]); let delims = u32::from_le_bytes(delims);` => `let delims = le32(slice_subrange(stream, fwd, fwd + 4));`
//@subst `stream.split_at(` => `split_ref(stream, ` *
//@spec
    requires
        old(self).wf(),
        old(buf)@.len() <= 2 * MAXLEN,
    ensures
        // a line that is not a record is an error
        old(self).src.rest().len() > 0 && record(old(self).parse_offset, old(self).parse_span, line_of(old(self).src.rest())) is None ==> res is Err,
        res matches Ok(x) ==> {
            &&& final(self).wf()
            &&& final(self).parse_offset == old(self).parse_offset
            &&& final(self).parse_span == old(self).parse_span
        },
        res matches Ok(Some((o, s))) ==> {
            &&& old(self).recs().len() > 0
            &&& old(self).recs()[0].off == o
            &&& old(self).recs()[0].span == s
            &&& o < MAXNUM
            &&& s < MAXNUM
            &&& final(buf)@ == old(buf)@ + old(self).recs()[0].body
            &&& final(self).recs() == old(self).recs().skip(1)
        },
        res matches Ok(None) ==> {
            &&& old(self).recs().len() == 0
            &&& final(self).recs() == old(self).recs()
            &&& final(buf)@ == old(buf)@
        },
//@beforeloop 1
        let ghost h = fwd as int;
        let ghost part = line.skip(h + 3);
        let ghost sl = stream@;
        proof {
            assert forall|j: int| 0 <= j < part.len() implies sl[j] != 10 by { assert(sl[j] == full[j + h + 3]); }
            assert(sl[part.len() as int] == full[kk]);
            lemma_first_is(sl, 10, part.len() as int);
            assert(sl.take(part.len() as int) =~= part);
            if part.len() == 0 { lemma_array_empty(part); }
        }
//@loop 1
            invariant
                self.wf(),
                self.src.filled(),
                self.src.avail() == len,
                self.src.rest() == text,
                self.parse_offset == old(self).parse_offset,
                self.parse_span == old(self).parse_span,
                rem_len > 0 ==> buf@ == old(buf)@ && stream@ == sl && rem_len == len - h - 3 && !is_in_tail,
                rem_len == 0 ==> kk == len && (array(part) matches Some(b) && buf@ =~= old(buf)@ + b),
            decreases rem_len
//@before `self.cache.append(stream);`
        let ghost text = self.src.rest();
        let ghost full = stream@;
        let ghost kk = first(text, 10, 0);
        let ghost line = line_of(text);
        proof {
            lemma_first(text, 10, 0);
            assert forall|j: int| 0 <= j < len implies full[j] == text[j] by {
                assert(full.subrange(0, len as int)[j] == text.subrange(0, len as int)[j]);
            }
            assert(full[kk] == 10);
            assert(full.take(kk) =~= line);
            lemma_head_cut(self.parse_offset, self.parse_span, full, kk);
        }
//@tail `self.read_line_continued(`
        proof { if ret is Ok { assert(self.src.rest() =~= after_line(text)); } }
//@before `let delims = le32`
        let ghost h = fwd as int;
        proof {
            let d = full.subrange(h, h + 4);
            lemma_le32(d[0], d[1], d[2], d[3]);
            assert(line.len() == kk);
            assert(forall|j: int| 0 <= j < kk ==> line[j] == full[j]);
        }
//@end
}

#[verifier::external_body]
fn no_number() -> PNum requires false { unimplemented!() }
#[verifier::external_body]
fn no_body() -> PBody requires false { unimplemented!() }
