// ---- the slices, formatted one after another
spec fn one(f: Fmt, offset: int, w: int, stream: Seq<u8>, s: Segment) -> Seq<u8> {
    match f {
        Fmt::Bin => sub(stream, s),
        Fmt::Hhh => line_hhh(sub(stream, s), offset + s.pos, wide(s, w)),
        Fmt::Ddh => line_ddh(sub(stream, s), offset + s.pos, wide(s, w)),
    }
}
spec fn every(f: Fmt, offset: int, w: int, stream: Seq<u8>, segs: Seq<Segment>) -> Seq<u8>
    decreases segs.len()
{
    if segs.len() == 0 { Seq::empty() } else { every(f, offset, w, stream, segs.drop_last()) + one(f, offset, w, stream, segs.last()) }
}
proof fn lemma_every(f: Fmt, offset: int, w: int, stream: Seq<u8>, segs: Seq<Segment>)
    ensures formatted(f, offset, w, stream, segs) == every(f, offset, w, stream, segs)
    decreases segs.len()
{
    if segs.len() > 0 { lemma_every(f, offset, w, stream, segs.drop_last()); }
}
proof fn lemma_every_add(f: Fmt, offset: int, w: int, stream: Seq<u8>, a: Seq<Segment>, b: Seq<Segment>)
    ensures every(f, offset, w, stream, a + b) =~= every(f, offset, w, stream, a) + every(f, offset, w, stream, b)
    decreases b.len()
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_every_add(f, offset, w, stream, a, b.drop_last());
    } else {
        assert(a + b =~= a);
    }
}
proof fn lemma_every_one(f: Fmt, offset: int, w: int, stream: Seq<u8>, s: Segment)
    ensures every(f, offset, w, stream, seq![s]) =~= one(f, offset, w, stream, s)
{
    assert(seq![s].drop_last() =~= Seq::empty());
    assert(every(f, offset, w, stream, seq![s].drop_last()) =~= Seq::empty());
    assert(seq![s].last() == s);
}
// one slice is not longer than all of them
proof fn lemma_every_len(f: Fmt, offset: int, w: int, stream: Seq<u8>, segs: Seq<Segment>, i: int)
    requires 0 <= i < segs.len()
    ensures one(f, offset, w, stream, segs[i]).len() <= every(f, offset, w, stream, segs).len()
    decreases segs.len()
{
    if i < segs.len() - 1 { lemma_every_len(f, offset, w, stream, segs.drop_last(), i); }
}
// the bytes of the slices and their positions in the whole stream are all that counts
proof fn lemma_every_like(f: Fmt, o1: int, o2: int, w: int, t1: Seq<u8>, t2: Seq<u8>, s1: Seq<Segment>, s2: Seq<Segment>)
    requires
        s1.len() == s2.len(),
        forall|i: int| 0 <= i < s1.len() ==> sub(t1, #[trigger] s1[i]) =~= sub(t2, s2[i]) && o1 + s1[i].pos == o2 + s2[i].pos && s1[i].len == s2[i].len,
    ensures every(f, o1, w, t1, s1) == every(f, o2, w, t2, s2)
    decreases s1.len()
{
    if s1.len() > 0 {
        let n = s1.len() - 1;
        assert(s1[n] == s1.last() && s2[n] == s2.last());
        assert forall|i: int| 0 <= i < s1.drop_last().len() implies sub(t1, #[trigger] s1.drop_last()[i]) =~= sub(t2, s2.drop_last()[i])
            && o1 + s1.drop_last()[i].pos == o2 + s2.drop_last()[i].pos && s1.drop_last()[i].len == s2.drop_last()[i].len by {
            assert(s1.drop_last()[i] == s1[i] && s2.drop_last()[i] == s2[i]);
        }
        lemma_every_like(f, o1, o2, w, t1, t2, s1.drop_last(), s2.drop_last());
    }
}
// only the bytes of the slices matter
proof fn lemma_every_stream(f: Fmt, o: int, w: int, t1: Seq<u8>, t2: Seq<u8>, segs: Seq<Segment>, n: int)
    requires within(segs, n), n <= t1.len(), n <= t2.len(), t1.take(n) =~= t2.take(n)
    ensures every(f, o, w, t1, segs) == every(f, o, w, t2, segs)
{
    assert forall|i: int| 0 <= i < segs.len() implies sub(t1, #[trigger] segs[i]) =~= sub(t2, segs[i]) by {
        assert(segs[i].end() <= n);
        assert forall|j: int| 0 <= j < n implies t1[j] == t2[j] by { assert(t1.take(n)[j] == t2.take(n)[j]); }
    }
    lemma_every_like(f, o, o, w, t1, t2, segs, segs);
}
// the slices of one round, and what is left after b bytes are gone
proof fn lemma_step(f: Fmt, o: int, w: int, rest: Seq<u8>, segs: Seq<Segment>, k: int, n: int, b: int)
    requires
        inorder(segs), within(segs, rest.len() as int),
        0 <= k <= n <= segs.len(), 0 <= b <= rest.len(), below(segs, b) <= n,
        forall|i: int| n <= i < segs.len() ==> (#[trigger] segs[i]).pos >= b,
    ensures
        every(f, o, w, rest, segs.skip(k)) =~= every(f, o, w, rest, segs.take(n).skip(k)) + every(f, o, w, rest, segs.skip(n)),
        every(f, o, w, rest, segs.skip(n)) == every(f, o + b, w, rest.skip(b), advance(segs, b).skip(n - below(segs, b))),
{
    lemma_below(segs, b);
    assert(segs.skip(k) =~= segs.take(n).skip(k) + segs.skip(n));
    lemma_every_add(f, o, w, rest, segs.take(n).skip(k), segs.skip(n));
    let s1 = segs.skip(n);
    let s2 = advance(segs, b).skip(n - below(segs, b));
    assert forall|i: int| 0 <= i < s1.len() implies sub(rest, #[trigger] s1[i]) =~= sub(rest.skip(b), s2[i]) && o + s1[i].pos == o + b + s2[i].pos && s1[i].len == s2[i].len by {
        let x = segs[n + i];
        assert(s1[i] == x);
        assert(x.pos >= b && x.end() <= rest.len());
        assert(s2[i] == Segment { pos: (x.pos - b) as usize, len: x.len });
    }
    lemma_every_like(f, o, o + b, w, rest, rest.skip(b), s1, s2);
}

// a source of slices that may be formatted (stated bound on the length)
spec fn drainable(s: Box<dyn SegmentStream>) -> bool {
    &&& s.wf()
    &&& s.rest().len() <= MAXLEN / 8
    &&& inorder(s.segs())
    &&& within(s.segs(), s.rest().len() as int)
    &&& 0 <= s.known() <= s.segs().len()
    &&& 0 <= s.limit() <= s.rest().len()
}
proof fn lemma_drainable_fill(s0: Box<dyn SegmentStream>, s: Box<dyn SegmentStream>, e: bool, b: int, n: int)
    requires
        drainable(s0), s.wf(), s.rest() =~= (if e { s0.rest().take(b) } else { s0.rest() }), s.segs() =~= s0.segs(),
        s0.limit() <= s.limit() <= b <= s0.rest().len(), s0.known() <= n <= s.segs().len(), n == s.known(),
        within(s.segs().take(n), b), e ==> n == s.segs().len(),
    ensures drainable(s)
{
    assert forall|i: int| 0 <= i < s.segs().len() implies (#[trigger] s.segs()[i]).end() <= s.rest().len() by {
        if e { assert(s.segs().take(n)[i] == s.segs()[i]); } else { assert(s0.segs()[i] == s.segs()[i]); }
    }
    assert(inorder(s.segs())) by { assert(s.segs() == s0.segs()); }
}

// what is written to the files named by --output: (offset, line, bytes), in this order
type Dumps = Seq<(int, int, Seq<u8>)>;
// the files: the rendering of the name and the file system are not specified
struct ScatterContext { log: Ghost<Dumps> }
impl ScatterContext {
    #[verifier::external_body]
    fn new(file: &str) -> (res: Result<Self>)
        ensures res matches Ok(c) ==> c.log@ == Dumps::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn dump_segment(&mut self, buf: &[u8], offset: usize, line: usize) -> (res: Result<()>)
        ensures res is Ok ==> final(self).log@ == old(self).log@.push((offset as int, line as int, buf@))
    { unimplemented!() }
}
// str::is_empty, == "-"
#[verifier::external_body]
fn is_stdout(file: &str) -> (res: bool)
    ensures res == to_stdout(file@)
{ file.is_empty() || file == "-" }
spec fn to_stdout(file: Seq<char>) -> bool { file.len() == 0 || file =~= seq!['-'] }

//@struct src/drain/scatter.rs ScatterDrain

// the slices, each with its offset and its index
spec fn dumps(f: Fmt, offset: int, line: int, w: int, stream: Seq<u8>, segs: Seq<Segment>) -> Dumps {
    Seq::new(segs.len(), |i: int| (offset + segs[i].pos, line + i, one(f, offset, w, stream, segs[i])))
}
proof fn lemma_dumps_step(f: Fmt, o: int, line: int, w: int, rest: Seq<u8>, segs: Seq<Segment>, k: int, n: int, b: int)
    requires
        inorder(segs), within(segs, rest.len() as int),
        0 <= k <= n <= segs.len(), 0 <= b <= rest.len(), below(segs, b) <= n,
        forall|i: int| n <= i < segs.len() ==> (#[trigger] segs[i]).pos >= b,
    ensures
        dumps(f, o, line + k, w, rest, segs.skip(k)) =~= dumps(f, o, line + k, w, rest, segs.take(n).skip(k))
            + dumps(f, o + b, line + n, w, rest.skip(b), advance(segs, b).skip(n - below(segs, b))),
{
    lemma_below(segs, b);
    let c = below(segs, b);
    let l = dumps(f, o, line + k, w, rest, segs.skip(k));
    let p = dumps(f, o, line + k, w, rest, segs.take(n).skip(k));
    let q = dumps(f, o + b, line + n, w, rest.skip(b), advance(segs, b).skip(n - c));
    assert forall|i: int| 0 <= i < l.len() implies l[i] == (p + q)[i] by {
        if i < n - k { assert(segs.take(n).skip(k)[i] == segs.skip(k)[i]); }
        else {
            let j = i - (n - k);
            let x = segs[n + j];
            assert(segs.skip(k)[i] == x);
            assert(x.pos >= b && x.end() <= rest.len());
            let y = advance(segs, b).skip(n - c)[j];
            assert(y == Segment { pos: (x.pos - b) as usize, len: x.len });
            assert(sub(rest, x) =~= sub(rest.skip(b), y));
        }
    }
}

struct ScatterEnv<'a> {
    src: &'a mut Box<dyn SegmentStream>,
    src_consumed: &'a mut usize,
    offset: &'a mut usize,
    lines: &'a mut usize,
    formatter: &'a TextFormatter,
}
spec fn steady(src: Box<dyn SegmentStream>, src_consumed: int, offset: int, lines: int, formatter: TextFormatter) -> bool {
    &&& drainable(src)
    &&& 0 <= src_consumed <= src.known()
    &&& offset + src.rest().len() <= MAXLEN
    &&& lines + src.segs().len() <= MAXLEN
    &&& formatter.offset == (0usize, 0usize)
    &&& formatter.min_width <= MAXLEN / 8
}
spec fn coming(src: Box<dyn SegmentStream>, src_consumed: int, offset: int, formatter: TextFormatter) -> Seq<u8> {
    every(formatter.formatter, offset, formatter.min_width as int, src.rest(), src.segs().skip(src_consumed))
}
impl<'a> Filler for ScatterEnv<'a> {
    spec fn wf(&self, buf: Seq<u8>) -> bool {
        &&& steady(*self.src, *self.src_consumed as int, *self.offset as int, *self.lines as int, *self.formatter)
        &&& buf.len() + self.rest().len() <= MAXLEN
    }
    spec fn wf_end(&self, buf: Seq<u8>) -> bool { true }
    spec fn rest(&self) -> Seq<u8> { coming(*self.src, *self.src_consumed as int, *self.offset as int, *self.formatter) }
    spec fn need(&self) -> nat { 0 }
    type Fin = (Box<dyn SegmentStream>, usize, usize, usize, TextFormatter);
    #[verifier::prophetic]
    spec fn fin(&self) -> Self::Fin { (*final(self.src), *final(self.src_consumed), *final(self.offset), *final(self.lines), *self.formatter) }

//@closure src/drain/scatter.rs ScatterDrain::fill_buf_impl_through 1
//@sig fn call(&mut self, request: usize, buf: &mut Vec<u8>) -> Result<bool>
//@subst `self.src_consumed` => `(*self.src_consumed)` *
//@subst `self.offset` => `(*self.offset)` *
//@subst `self.lines` => `(*self.lines)` *
//@entry
        let ghost b0 = buf@;
        let ghost s0 = *self.src;
        let ghost k0 = *self.src_consumed as int;
        let ghost o0 = *self.offset as int;
        let ghost f = self.formatter.formatter;
        let ghost w = self.formatter.min_width as int;
//@before `let (stream, segments)`
        let ghost s1 = *self.src;
        let ghost sg = s1.segs();
        let ghost n1 = count as int;
        proof {
            lemma_drainable_fill(s0, s1, is_eof, bytes as int, count as int);
            assert forall|i: int| 0 <= i < sg.take(n1).len() implies (#[trigger] sg.take(n1)[i]).end() <= bytes by {}
            assert(within(sg.skip(k0), s1.rest().len() as int));
            lemma_every_stream(f, o0, w, s0.rest(), s1.rest(), sg.skip(k0), s1.rest().len() as int);
        }
//@before `self.formatter .format_segments`
        proof {
            let p = sg.take(n1).skip(k0);
            assert(segments@.subrange(k0, n1) =~= p);
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).end() <= bytes by { assert(p[i] == sg.take(n1)[i + k0]); }
            assert(stream@.take(bytes as int) =~= s1.rest().take(bytes as int));
            lemma_every_stream(f, o0, w, stream@, s1.rest(), p, bytes as int);
            lemma_every(f, o0, w, stream@, p);
            lemma_below_is_le(sg, max_consume as int, n1);
            lemma_step(f, o0, w, s1.rest(), sg, k0, n1, max_consume as int);
        }
//@before `(*self.src_consumed) -=`
        proof {
            lemma_advance(sg, bytes as int, s1.rest().len() as int);
            lemma_below_is_le(sg, bytes as int, n1);
            lemma_step(f, o0, w, s1.rest(), sg, k0, n1, bytes as int);
            lemma_below(sg, bytes as int);
        }
//@tail `Ok`
        proof {
            assert(buf@ =~= b0 + every(f, o0, w, s1.rest(), sg.take(n1).skip(k0)));
            assert(self.rest() == every(f, o0, w, s1.rest(), sg.skip(n1)));
            if is_eof { assert(sg.skip(n1) =~= Seq::empty()); }
        }
//@end
}
impl ScatterDrain {
    spec fn ok(&self) -> bool { steady(self.src, self.src_consumed as int, self.offset as int, self.lines as int, self.formatter) }
    spec fn to_come(&self) -> Seq<u8> { coming(self.src, self.src_consumed as int, self.offset as int, self.formatter) }

//@fn src/drain/scatter.rs ScatterDrain::new
//@subst `file.is_empty() || file == "-"` => `is_stdout(file)`
//@spec
    requires
        drainable(src), src.known() == 0, src.segs().len() <= MAXLEN,
        format.known(), format.cols <= MAXLEN / 8,
        every(format.fmt(), 0, format.cols as int, src.rest(), src.segs()).len() < MAXLEN,
    ensures
        res matches Ok(d) ==> {
            &&& d.wf()
            &&& d.file is None <==> to_stdout(file@)
            &&& d.file is None ==> d.rest() =~= every(format.fmt(), 0, format.cols as int, src.rest(), src.segs())
            &&& d.file is Some ==> d.files_left() =~= dumps(format.fmt(), 0, 0, format.cols as int, src.rest(), src.segs()) && d.file->Some_0.log@ == Dumps::empty()
        }
//@entry
        proof { assert(src.segs().skip(0) =~= src.segs()); assert(src.segs().skip(0) == src.segs()); }
//@end

//@fn src/drain/scatter.rs ScatterDrain::fill_buf_impl_through
//@closurearg 1 => `&mut env`
//@before `self.drain.fill_buf(`
        let mut env = ScatterEnv { src: &mut self.src, src_consumed: &mut self.src_consumed, offset: &mut self.offset, lines: &mut self.lines, formatter: &self.formatter };
//@spec
    requires
        old(self).wf(), old(self).file is None,
        request + 1 <= MAXREQ,
    ensures
        res matches Ok((e, n)) ==> {
            &&& final(self).wf()
            &&& final(self).file == old(self).file
            &&& final(self).rest() =~= old(self).rest()
            &&& n == final(self).avail()
            &&& n <= final(self).rest().len()
            &&& n >= old(self).avail()
            &&& e ==> n == final(self).rest().len()
            &&& e ==> final(self).ended()
            &&& old(self).ended() ==> e
            &&& !e ==> n >= request
        }
//@end

#[verifier::exec_allows_no_decreases_clause]
//@fn src/drain/scatter.rs ScatterDrain::fill_buf_impl_scatter
//@subst `for (i, s) in segments[self.src_consumed..count].windows(1).enumerate() {` => `for i in 0..count - self.src_consumed { let s = &segments[self.src_consumed + i..self.src_consumed + i + 1];`
//@spec
    requires
        old(self).wf(), old(self).file is Some,
    ensures
        res matches Ok((e, n)) ==> {
            &&& final(self).wf()
            &&& e && n == 0
            &&& final(self).drain == old(self).drain
            // all the slices are written, once and in order
            &&& final(self).file is Some
            &&& final(self).file->Some_0.log@ =~= old(self).file->Some_0.log@ + old(self).files_left()
        }
//@entry
        let ghost l0 = self.file->Some_0.log@;
        let ghost d0 = self.files_left();
        let ghost mut done: int = 0;
        let ghost f = self.formatter.formatter;
        let ghost w = self.formatter.min_width as int;
        proof { assert(d0.skip(0) =~= d0); assert(l0 + d0.take(0) =~= l0); }
//@loop 1
            invariant
                old(self).wf(), old(self).file is Some, l0 == old(self).file->Some_0.log@, d0 == old(self).files_left(),
                self.ok(), self.file is Some, self.drain == old(self).drain,
                self.to_come().len() <= old(self).to_come().len(),
                old(self).to_come().len() < MAXLEN,
                self.formatter == old(self).formatter,
                f == self.formatter.formatter, w == self.formatter.min_width,
                0 <= done <= d0.len(),
                self.file->Some_0.log@ =~= l0 + d0.take(done),
                self.files_left() =~= d0.skip(done),
//@loopstart 1
            let ghost s0 = self.src;
            let ghost k0 = self.src_consumed as int;
            let ghost o0 = self.offset as int;
            let ghost ln0 = self.lines as int;
            let ghost dn0 = done;
//@before `let (stream, segments)`
            let ghost s1 = self.src;
            let ghost sg = s1.segs();
            let ghost n1 = count as int;
            proof {
                lemma_drainable_fill(s0, s1, is_eof, bytes as int, n1);
                assert(within(sg.skip(k0), s1.rest().len() as int));
                lemma_every_stream(f, o0, w, s0.rest(), s1.rest(), sg.skip(k0), s1.rest().len() as int);
                assert(self.files_left() =~= d0.skip(done)) by {
                    let a = dumps(f, o0, ln0 + k0, w, s0.rest(), sg.skip(k0));
                    let b = dumps(f, o0, ln0 + k0, w, s1.rest(), sg.skip(k0));
                    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
                        assert(sg.skip(k0)[i].end() <= s1.rest().len());
                        assert(sub(s0.rest(), sg.skip(k0)[i]) =~= sub(s1.rest(), sg.skip(k0)[i]));
                    }
                    assert(a =~= b);
                }
                let p = sg.take(n1).skip(k0);
                lemma_below_is_le(sg, max_consume as int, n1);
                lemma_step(f, o0, w, s1.rest(), sg, k0, n1, max_consume as int);
            }
//@loop 2
                invariant
                    self.src == s1, self.src_consumed == k0, self.offset == o0, self.lines == ln0,
                    self.formatter == old(self).formatter, f == self.formatter.formatter, w == self.formatter.min_width,
                    self.ok(), self.file is Some, self.drain == old(self).drain,
                    self.to_come().len() < MAXLEN,
                    sg == s1.segs(), n1 == count, k0 <= n1 <= sg.len(),
                    bytes <= s1.rest().len(), stream@.len() >= bytes,
                    stream@.take(bytes as int) =~= s1.rest().take(bytes as int),
                    segments@ == sg.take(n1),
                    within(sg.take(n1), bytes as int),
                    self.files_left() =~= d0.skip(dn0),
                    0 <= dn0, dn0 + (n1 - k0) <= d0.len(),
                    self.file->Some_0.log@ =~= l0 + d0.take(dn0 + i),
//@loopstart 2
                let ghost x = sg[k0 + i];
                proof {
                    assert(sg.take(n1)[k0 + i] == x);
                    assert(sg.skip(k0)[i as int] == x);
                    assert(sub(stream@, x) =~= sub(s1.rest(), x)) by {
                        assert forall|j: int| 0 <= j < bytes implies stream@[j] == s1.rest()[j] by { assert(stream@.take(bytes as int)[j] == s1.rest().take(bytes as int)[j]); }
                    }
                    lemma_every_len(f, o0, w, s1.rest(), sg.skip(k0), i as int);
                    lemma_every(f, o0, w, stream@, seq![x]);
                    lemma_every_one(f, o0, w, stream@, x);
                    assert(one(f, o0, w, stream@, x) == one(f, o0, w, s1.rest(), x));
                }
//@before `self.formatter .format_segments`
                proof { assert(s@ =~= seq![x]); }
//@loopend 2
                proof {
                    let e = d0[dn0 + i];
                    assert(self.files_left()[i as int] == d0.skip(dn0)[i as int]);
                    assert(d0.take(dn0 + i + 1) =~= d0.take(dn0 + i).push(e));
                    assert(self.file->Some_0.log@ =~= l0 + d0.take(dn0 + i + 1));
                }
//@before `if is_eof && bytes == 0`
            proof {
                if is_eof {
                    assert(n1 == sg.len());
                    assert(d0.skip(dn0).len() == n1 - k0);
                    assert(d0.take(dn0 + (n1 - k0)) =~= d0);
                }
            }
//@before `self.src_consumed -=`
            proof {
                let b = bytes as int;
                lemma_advance(sg, b, s1.rest().len() as int);
                lemma_below_is_le(sg, b, n1);
                lemma_step(f, o0, w, s1.rest(), sg, k0, n1, b);
                lemma_dumps_step(f, o0, ln0, w, s1.rest(), sg, k0, n1, b);
                lemma_below(sg, b);
                done = dn0 + (n1 - k0);
            }
//@loopend 1
            proof {
                let a = dumps(f, o0, ln0 + k0, w, s1.rest(), sg.skip(k0));
                let q = self.files_left();
                assert(a == d0.skip(dn0));
                assert(q == dumps(f, o0 + bytes, ln0 + n1, w, s1.rest().skip(bytes as int), advance(sg, bytes as int).skip(n1 - below(sg, bytes as int))));
                assert(a.skip(n1 - k0) =~= q);
                assert(self.files_left() =~= d0.skip(done));
            }
//@end

    spec fn files_left(&self) -> Dumps {
        dumps(self.formatter.formatter, self.offset as int, self.lines + self.src_consumed, self.formatter.min_width as int, self.src.rest(), self.src.segs().skip(self.src_consumed as int))
    }
}


impl ByteStream for ScatterDrain {
    spec fn wf(&self) -> bool {
        &&& self.drain.wf()
        &&& self.drain.align == 1
        &&& !self.drain.is_eof ==> self.ok() && self.drain.end() + self.to_come().len() + 1 <= MAXLEN
        &&& self.file is Some ==> self.drain.content().len() == 0 && !self.drain.is_eof
    }
    spec fn rest(&self) -> Seq<u8> { if self.file is Some { Seq::empty() } else { self.drain.future(self.to_come()) } }
    spec fn ended(&self) -> bool { self.file is Some || self.drain.is_eof }
    spec fn avail(&self) -> int { self.drain.content().len() as int }
    spec fn nl(&self) -> bool { false }
    spec fn filled(&self) -> bool { true }
    spec fn need(&self) -> nat { 1 }
//@fn src/drain/scatter.rs ByteStream for ScatterDrain::fill_buf
//@end
//@fn src/drain/scatter.rs ByteStream for ScatterDrain::as_slice
//@end
//@fn src/drain/scatter.rs ByteStream for ScatterDrain::consume
//@end
}
