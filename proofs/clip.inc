//@struct src/byte/clip.rs ClipperParams


// Range::len of a range of integers
fn range_len(r: &Range<usize>) -> (n: usize)
    ensures n == (if r.start < r.end { (r.end - r.start) as int } else { 0 })
{ if r.start < r.end { r.end - r.start } else { 0 } }

impl ClipperParams {
//@fn src/byte/clip.rs ClipperParams::from_raw
//@subst `range.len()` => `range_len(&range)` *
//@spec
    requires
        seek matches Some(s) ==> s == 0,
        range matches Some(r) ==> r.start == 0 && r.end == usize::MAX,
    ensures
        res matches Ok(p) && p.clip == (0usize, 0usize) && p.len == usize::MAX
            && p.pad == (if pad is Some { pad->Some_0 } else { (0usize, 0usize) })
//@end
}

//@struct src/byte/clip.rs ClipStream

// CatStream::new for two or three sources, with the sum written out
fn cat_few(srcs: Vec<Box<dyn ByteStream>>) -> (res: CatStream)
    requires
        2 <= srcs.len() <= 3,
        sok(srcs[0]), sok(srcs[1]), srcs.len() == 3 ==> sok(srcs[2]),
        srcs[0].rest().len() + srcs[1].rest().len() + (if srcs.len() == 3 { srcs[2].rest().len() as int } else { 0 }) <= MAXLEN,
    ensures
        res.wf(),
        res.avail() <= res.rest().len(), 0 <= res.avail(),
        res.rest() =~= srcs[0].rest() + srcs[1].rest() + (if srcs.len() == 3 { srcs[2].rest() } else { Seq::empty() }),
        res.need() <= 1 + (if srcs[0].need() >= srcs[1].need() { srcs[0].need() } else { srcs[1].need() })
            + (if srcs.len() == 3 { srcs[2].need() } else { 0 }),
{
    proof {
        reveal_with_fuel(cat_from, 5);
        reveal_with_fuel(max_nat, 5);
        let n = needs_of(srcs@);
        assert(n.drop_last().len() == n.len() - 1);
        assert(n.drop_last().drop_last().len() == n.len() - 2);
    }
    let ghost s0 = srcs@;
    let res = CatStream::new(srcs);
    proof {
        assert(res.rest() =~= cat_from(s0, 0));
        assert(res.srcs@ == s0);
    }
    res
}

impl ClipStream {
    // the pipeline always makes it without a limit of the length and without stripping the tail
    spec fn clip_wf(&self) -> bool {
        &&& sok(self.src)
        &&& self.strip == 0
        &&& self.rem >= self.src.rest().len()
        &&& self.src.need() + 2 + 16 * MAXLEN + 64 <= MAXREQ
    }
    spec fn clip_rest(&self) -> Seq<u8> {
        if self.skip <= self.src.rest().len() { self.src.rest().skip(self.skip as int) } else { Seq::empty() }
    }

// padding: the filler bytes of the head, the stream, the filler bytes of the tail
//@fn src/byte/clip.rs ClipStream::new
//@subst `CatStream::new(` => `cat_few(` *
//@spec
    requires
        sok(src),
        params.clip.1 == 0,
        params.len >= MAXLEN,
        params.pad.0 + src.rest().len() + params.pad.1 <= MAXLEN,
        src.need() + 16 * MAXLEN + 128 <= MAXREQ,
    ensures
        res.clip_wf(),
        res.skip == params.clip.0,
        res.src.rest() =~= fill_seq(params.pad.0 as int, filler) + src.rest() + fill_seq(params.pad.1 as int, filler),
//@end
}

impl ByteStream for ClipStream {
    spec fn wf(&self) -> bool { self.clip_wf() }
    spec fn rest(&self) -> Seq<u8> { self.clip_rest() }
    spec fn ended(&self) -> bool { self.src.ended() || (self.skip == 0 && self.src.avail() >= self.rem) }
    spec fn avail(&self) -> int { if self.skip > 0 { 0 } else { self.src.avail() } }
    spec fn nl(&self) -> bool { false }
    spec fn filled(&self) -> bool { self.src.filled() && (self.skip > 0 ==> self.src.rest().len() == 0) }
    spec fn need(&self) -> nat { self.src.need() + 2 }

#[verifier::exec_allows_no_decreases_clause]
//@fn src/byte/clip.rs ByteStream for ClipStream::fill_buf
//@loop 1
            invariant
                self.clip_wf(),
                self.need() == old(self).need(),
                self.clip_rest() =~= old(self).clip_rest(),
                request + self.need() <= MAXREQ,
                self.rem == old(self).rem,
                self.strip == old(self).strip,
                old(self).src.ended() ==> self.src.ended(),
                old(self).skip == 0 ==> self.src == old(self).src && self.skip == 0,
//@end
//@fn src/byte/clip.rs ByteStream for ClipStream::as_slice
//@end
//@fn src/byte/clip.rs ByteStream for ClipStream::consume
//@end
}
