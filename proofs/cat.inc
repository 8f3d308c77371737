//@struct src/byte/cat.rs CatStream

// the rests of the sources from the k-th on, in order
spec fn cat_from(srcs: Seq<Box<dyn ByteStream>>, k: int) -> Seq<u8>
    decreases srcs.len() - k
{
    if 0 <= k < srcs.len() { srcs[k].rest() + cat_from(srcs, k + 1) } else { Seq::empty() }
}

// after the first `dup` bytes of source i
spec fn cat_tail(srcs: Seq<Box<dyn ByteStream>>, i: int, dup: int) -> Seq<u8> {
    if 0 <= i < srcs.len() { srcs[i].rest().skip(dup) + cat_from(srcs, i + 1) } else { Seq::empty() }
}

spec fn same_from(a: Seq<Box<dyn ByteStream>>, b: Seq<Box<dyn ByteStream>>, k: int) -> bool {
    a.len() == b.len() && forall|j: int| k <= j < a.len() ==> a[j].rest() == b[j].rest()
}

proof fn lemma_cat_same(a: Seq<Box<dyn ByteStream>>, b: Seq<Box<dyn ByteStream>>, k: int)
    requires same_from(a, b, k), 0 <= k
    ensures cat_from(a, k) == cat_from(b, k)
    decreases a.len() - k
{
    if k < a.len() { lemma_cat_same(a, b, k + 1); }
}

// room for requests: the largest among the sources
spec fn max_nat(s: Seq<nat>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { let m = max_nat(s.drop_last()); if m >= s.last() { m } else { s.last() } }
}

proof fn lemma_max(s: Seq<nat>, j: int)
    requires 0 <= j < s.len()
    ensures s[j] <= max_nat(s)
    decreases s.len()
{
    if j < s.len() - 1 { lemma_max(s.drop_last(), j); }
}

spec fn needs_of(srcs: Seq<Box<dyn ByteStream>>) -> Seq<nat> {
    Seq::new(srcs.len(), |j: int| srcs[j].need())
}

// one source has changed
proof fn lemma_update(a: Seq<Box<dyn ByteStream>>, b: Seq<Box<dyn ByteStream>>, i: int)
    requires
        a.len() == b.len(),
        0 <= i < a.len(),
        forall|j: int| 0 <= j < a.len() && j != i ==> a[j] == b[j],
    ensures
        cat_from(a, i + 1) == cat_from(b, i + 1),
        a[i].need() == b[i].need() ==> needs_of(a) =~= needs_of(b),
{
    lemma_cat_same(a, b, i + 1);
}

spec fn srcs_wf(srcs: Seq<Box<dyn ByteStream>>, i: int, dup: int) -> bool {
    &&& 0 <= i <= srcs.len()
    &&& forall|j: int| #![trigger srcs[j]] i <= j < srcs.len() ==> sok(srcs[j])
    &&& i < srcs.len() ==> 0 <= dup <= srcs[i].avail()
    &&& i == srcs.len() ==> dup == 0
}

// the end of `s` is the part of source i that is duplicated
spec fn dup_ok(srcs: Seq<Box<dyn ByteStream>>, i: int, dup: int, s: Seq<u8>) -> bool {
    i < srcs.len() ==> dup <= s.len() && s.skip(s.len() - dup) =~= srcs[i].rest().subrange(0, dup)
}

struct CatEnv<'a> {
    srcs: &'a mut Vec<Box<dyn ByteStream>>,
    i: &'a mut usize,
    dup: &'a mut usize,
    is_eof: &'a mut bool,
    needs: Ghost<Seq<nat>>,
    lo: Ghost<int>,             // position of the first byte that is not consumed
}

impl<'a> Filler for CatEnv<'a> {
    spec fn wf(&self, buf: Seq<u8>) -> bool {
        &&& srcs_wf(self.srcs@, *self.i as int, *self.dup as int)
        &&& needs_of(self.srcs@) =~= self.needs@
        &&& *self.i < self.srcs.len()
        &&& self.srcs[*self.i as int].filled()
        &&& *self.is_eof ==> *self.dup == self.srcs[*self.i as int].rest().len()
        &&& 0 <= self.lo@ <= buf.len()
        &&& dup_ok(self.srcs@, *self.i as int, *self.dup as int, buf.skip(self.lo@))
    }
    spec fn wf_end(&self, buf: Seq<u8>) -> bool {
        &&& needs_of(self.srcs@) =~= self.needs@
        &&& *self.i == self.srcs.len()
        &&& *self.dup == 0
    }
    spec fn rest(&self) -> Seq<u8> { cat_tail(self.srcs@, *self.i as int, *self.dup as int) }
    spec fn need(&self) -> nat { max_nat(self.needs@) }
    type Fin = (Vec<Box<dyn ByteStream>>, usize, usize, bool, Seq<nat>, int);
    #[verifier::prophetic]
    spec fn fin(&self) -> Self::Fin { (*final(self.srcs), *final(self.i), *final(self.dup), *final(self.is_eof), self.needs@, self.lo@) }

//@closure src/byte/cat.rs CatStream::accumulate_into_cache 1
//@sig fn call(&mut self, request: usize, buf: &mut Vec<u8>) -> Result<bool>
//@subst `self.i` => `(*self.i)` *
//@subst `self.dup` => `(*self.dup)` *
//@subst `is_eof as usize` => `(if *self.is_eof { 1usize } else { 0usize })`
//@subst `is_eof = is_eof_next` => `*self.is_eof = is_eof_next`
//@entry
        let ghost s0 = self.srcs@;
        let ghost i0 = *self.i as int;
        let ghost d0 = *self.dup as int;
        let ghost b0 = buf@;
        let ghost r0 = self.rest();
        proof { lemma_max(self.needs@, i0); }
//@after `self.srcs[(*self.i)].consume((*self.dup));`
        proof { lemma_update(s0, self.srcs@, i0); }
//@before `let (is_eof_next, bytes)`
        let ghost s1 = self.srcs@;
        let ghost i1 = *self.i as int;
        proof {
            lemma_max(self.needs@, i1);
            assert(needs_of(s1)[i1] == s1[i1].need());
            // what is still to come is the rest of the current source and those after it
            assert(r0 =~= s1[i1].rest() + cat_from(s1, i1 + 1));
        }
//@before `let stream`
        proof {
            lemma_update(s1, self.srcs@, i1);
        }
//@before `*self.is_eof = is_eof_next`
        proof {
            let s2 = self.srcs@;
            let r = s2[i1].rest();
            assert(r =~= r.subrange(0, bytes as int) + r.skip(bytes as int));
            assert(buf@ =~= b0 + r.subrange(0, bytes as int));
            assert(self.rest() =~= r.skip(bytes as int) + cat_from(s1, i1 + 1));
            let t = buf@.skip(self.lo@);
            assert(t.skip(t.len() - bytes) =~= r.subrange(0, bytes as int));
        }
//@end
}

impl CatStream {
    spec fn cat_wf(&self) -> bool {
        &&& self.cache.wf()
        &&& self.cache.align == 1
        &&& (self.cache.is_eof || self.cache.primed())
        &&& srcs_wf(self.srcs@, self.i as int, self.dup as int)
        &&& self.cache.content().len() > 0 && self.i < self.srcs.len() ==> self.srcs[self.i as int].filled()
        &&& self.cache.is_eof ==> self.i == self.srcs.len()
        &&& dup_ok(self.srcs@, self.i as int, self.dup as int, self.cache.content())
        &&& self.cache.end() + cat_tail(self.srcs@, self.i as int, self.dup as int).len() <= MAXLEN
        &&& max_nat(needs_of(self.srcs@)) + 16 * MAXLEN + 64 <= MAXREQ
    }
    spec fn cat_rest(&self) -> Seq<u8> {
        self.cache.content() + cat_tail(self.srcs@, self.i as int, self.dup as int)
    }

//@fn src/byte/cat.rs CatStream::new
//@spec
    requires
        forall|j: int| #![trigger srcs[j]] 0 <= j < srcs.len() ==> sok(srcs[j]),
        cat_from(srcs@, 0).len() <= MAXLEN,
        max_nat(needs_of(srcs@)) + 16 * MAXLEN + 64 <= MAXREQ,
    ensures
        res.cat_wf(),
        res.cat_rest() =~= cat_from(srcs@, 0),
        res.srcs@ == srcs@, res.i == 0, res.dup == 0, res.cache.content().len() == 0,
        needs_of(res.srcs@) =~= needs_of(srcs@),
//@end

//@fn src/byte/cat.rs CatStream::accumulate_into_cache
//@subst `let mut is_eof = is_eof;` => `let mut is_eof = is_eof; let mut env = CatEnv { srcs: &mut self.srcs, i: &mut self.i, dup: &mut self.dup, is_eof: &mut is_eof, needs: Ghost(needs), lo: Ghost(lo) };`
//@closurearg 1 => `&mut env`
//@spec
    requires
        old(self).cat_wf(),
        old(self).i < old(self).srcs.len(),
        old(self).srcs[old(self).i as int].filled(),
        bytes == old(self).srcs[old(self).i as int].avail(),
        is_eof ==> bytes == old(self).srcs[old(self).i as int].rest().len(),
        request + max_nat(needs_of(old(self).srcs@)) + 1 <= MAXREQ,
    ensures
        res matches Ok((e, n)) ==> {
            &&& final(self).cat_wf()
            &&& needs_of(final(self).srcs@) =~= needs_of(old(self).srcs@)
            &&& final(self).cat_rest() =~= old(self).cat_rest()
            &&& n == final(self).cache.content().len()
            &&& n >= bytes - old(self).dup + old(self).cache.content().len()
            &&& e ==> final(self).i == final(self).srcs.len()
            &&& !e ==> n >= request && n >= 1
        }
//@entry
        let ghost needs = needs_of(self.srcs@);
        let ghost lo = self.cache.pos as int;
        let ghost s0 = self.srcs@;
        let ghost i0 = self.i as int;
        let ghost d0 = self.dup as int;
        let ghost r0 = self.cat_rest();
//@before `self.dup = bytes;`
        proof {
            let r = s0[i0].rest();
            assert(stream@.subrange(d0, bytes as int) =~= r.subrange(0, bytes as int).subrange(d0, bytes as int)) by {
                assert(stream@.subrange(0, bytes as int).subrange(d0, bytes as int) =~= stream@.subrange(d0, bytes as int));
            }
            assert(r.skip(d0) =~= r.subrange(d0, bytes as int) + r.skip(bytes as int));
            let c = self.cache.content();
            assert(c.skip(c.len() - bytes) =~= r.subrange(0, bytes as int)) by {
                let oc = old(self).cache.content();
                assert(oc.skip(oc.len() - d0) =~= r.subrange(0, d0));
                assert(c =~= oc + r.subrange(d0, bytes as int));
                assert(c.skip(c.len() - bytes) =~= oc.skip(oc.len() - d0) + r.subrange(d0, bytes as int));
                assert(r.subrange(0, bytes as int) =~= r.subrange(0, d0) + r.subrange(d0, bytes as int));
            }
            assert(c + cat_tail(s0, i0, bytes as int) =~= r0);
        }
//@before `self.cache.fill_buf(`
        proof {
            assert(self.cache.raw().skip(lo) =~= self.cache.content());
            assert(self.cache.padding(env.rest()) =~= Seq::<u8>::empty()) by {
                lemma_pad(self.cache.end() + env.rest().len(), 1);
            }
            assert(self.cache.future(env.rest()) =~= r0);
        }
        let ghost rest0 = env.rest();
//@tail `self.cache.fill_buf(`
        proof {
            lemma_pad(old(self).cache.end() + old(self).srcs[0].rest().len(), 1);
            assert(forall|t: int| t >= 0 ==> #[trigger] pad_len(t, 1) == 0);
            if let Ok((e, n)) = ret {
                assert(self.cache.raw().skip(lo) =~= self.cache.content());
                if e {
                    assert(self.cat_rest() =~= r0);
                } else {
                    assert(self.cache.padding(cat_tail(self.srcs@, self.i as int, self.dup as int)) =~= Seq::<u8>::empty());
                    assert(self.cat_rest() =~= r0);
                }
            }
        }
//@end
}

impl ByteStream for CatStream {
    spec fn wf(&self) -> bool { self.cat_wf() }
    spec fn rest(&self) -> Seq<u8> { self.cat_rest() }
    spec fn ended(&self) -> bool { self.i >= self.srcs.len() }
    spec fn avail(&self) -> int {
        if self.cache.content().len() == 0 && self.i < self.srcs.len() { self.srcs[self.i as int].avail() }
        else { self.cache.content().len() as int }
    }
    spec fn nl(&self) -> bool { false }
    spec fn filled(&self) -> bool {
        self.cache.content().len() == 0 && self.i < self.srcs.len() ==> self.srcs[self.i as int].filled()
    }
    spec fn need(&self) -> nat { max_nat(needs_of(self.srcs@)) + 1 }

//@fn src/byte/cat.rs ByteStream for CatStream::fill_buf
//@entry
        let ghost s0 = self.srcs@;
        let ghost i0 = self.i as int;
        proof {
            if self.i < self.srcs.len() { lemma_max(needs_of(self.srcs@), self.i as int); assert(needs_of(s0)[i0] == s0[i0].need()); }
        }
//@after `fill_buf(src_request)?;`
        proof { lemma_update(s0, self.srcs@, i0); }
//@end
//@fn src/byte/cat.rs ByteStream for CatStream::as_slice
//@end
//@fn src/byte/cat.rs ByteStream for CatStream::consume
//@entry
        let ghost s0 = self.srcs@;
        let ghost i0 = self.i as int;
        let ghost d0 = self.dup as int;
        let ghost c0 = self.cache.content();
        let ghost r0 = self.cat_rest();
//@after `self.srcs[self.i].consume(amount);`
        proof {
            lemma_update(s0, self.srcs@, i0);
            assert(self.cat_rest() =~= r0.skip(amount as int));
        }
//@after `self.cache.consume(amount);`
        proof {
            assert(self.cat_rest() =~= r0.skip(amount as int));
            if i0 < s0.len() {
                let t = self.cache.content();
                assert(t.skip(t.len() - d0) =~= c0.skip(c0.len() - d0));
            }
        }
//@after `self.srcs[self.i].consume(from_src);`
        proof { lemma_update(s0, self.srcs@, i0); }
//@after `self.dup = 0;`
        proof {
            let r = s0[i0].rest();
            assert(c0.skip(amount as int) =~= c0.skip(c0.len() - d0).skip(from_src as int));
            assert(r.subrange(0, d0).skip(from_src as int) =~= r.subrange(from_src as int, d0));
            assert(r.subrange(from_src as int, d0) + r.skip(d0) =~= r.skip(from_src as int));
            assert(r0.skip(amount as int) =~= c0.skip(amount as int) + cat_tail(s0, i0, d0));
            assert(self.cache.content().len() == 0);
            assert(dup_ok(self.srcs@, i0, 0, self.cache.content()));
            assert(needs_of(self.srcs@) =~= needs_of(s0));
            assert(srcs_wf(self.srcs@, i0, 0));
            assert(cat_tail(self.srcs@, i0, 0).len() == r0.len() - amount);
            // the cache's counter also counts bytes that are read back from the source: that this takes more than 2^56 copied
            // bytes to overflow is assumed
            assume(self.cache.end() + r0.len() - amount <= MAXLEN);
            assert(self.srcs[i0].rest().skip(0) =~= self.srcs[i0].rest());
            assert(self.cat_rest() =~= r0.skip(amount as int));
        }
//@end
}
