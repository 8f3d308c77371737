// ---- streams of slices
// in the order of the positions and inside of a stream of n bytes
spec fn inorder(s: Seq<Segment>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).pos <= (#[trigger] s[j]).pos }
spec fn within(s: Seq<Segment>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).end() <= n }

// the number of slices at the head that begin before n
spec fn below(s: Seq<Segment>, n: int) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0].pos >= n { 0 } else { 1 + below(s.skip(1), n) }
}
// positions counted from n on
spec fn shift(s: Seq<Segment>, n: int) -> Seq<Segment> { Seq::new(s.len(), |i: int| Segment { pos: (s[i].pos - n) as usize, len: s[i].len }) }
// what is left of the slices when the first n bytes are gone
spec fn advance(s: Seq<Segment>, n: int) -> Seq<Segment> { shift(s.skip(below(s, n)), n) }

proof fn lemma_below(s: Seq<Segment>, n: int)
    requires inorder(s)
    ensures
        0 <= below(s, n) <= s.len(),
        forall|i: int| 0 <= i < below(s, n) ==> (#[trigger] s[i]).pos < n,
        forall|i: int| below(s, n) <= i < s.len() ==> (#[trigger] s[i]).pos >= n,
    decreases s.len()
{
    if s.len() > 0 && s[0].pos < n {
        let t = s.skip(1);
        assert forall|i: int, j: int| 0 <= i <= j < t.len() implies (#[trigger] t[i]).pos <= (#[trigger] t[j]).pos by { assert(t[i] == s[i + 1] && t[j] == s[j + 1]); }
        lemma_below(t, n);
        assert forall|i: int| 0 <= i < below(s, n) implies (#[trigger] s[i]).pos < n by { if i > 0 { assert(s[i] == t[i - 1]); } }
        assert forall|i: int| below(s, n) <= i < s.len() implies (#[trigger] s[i]).pos >= n by { assert(s[i] == t[i - 1]); }
    }
    if s.len() > 0 && s[0].pos >= n {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).pos >= n by { assert(s[0].pos <= s[i].pos); }
    }
}
proof fn lemma_below_is(s: Seq<Segment>, n: int, k: int)
    requires
        inorder(s), 0 <= k <= s.len(),
        k > 0 ==> s[k - 1].pos < n,
        k < s.len() ==> s[k].pos >= n,
    ensures below(s, n) == k
{
    lemma_below(s, n);
    if below(s, n) < k { assert(s[below(s, n)].pos <= s[k - 1].pos); }
    if below(s, n) > k { assert(s[k].pos <= s[below(s, n) - 1].pos); }
}
proof fn lemma_below_is_le(segs: Seq<Segment>, b: int, n: int)
    requires inorder(segs), 0 <= n <= segs.len(), forall|i: int| n <= i < segs.len() ==> (#[trigger] segs[i]).pos >= b
    ensures 0 <= below(segs, b) <= n
{
    lemma_below(segs, b);
    if below(segs, b) > n { assert(segs[n].pos < b); }
}
proof fn lemma_advance(s: Seq<Segment>, n: int, total: int)
    requires inorder(s), within(s, total), 0 <= n
    ensures inorder(advance(s, n)), within(advance(s, n), total - n)
{
    lemma_below(s, n);
    let k = below(s, n);
    let t = advance(s, n);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).end() <= total - n by { assert(s[i + k].pos >= n && s[i + k].end() <= total); }
    assert forall|i: int, j: int| 0 <= i <= j < t.len() implies (#[trigger] t[i]).pos <= (#[trigger] t[j]).pos by { assert(s[i + k].pos >= n && s[j + k].pos >= n); }
}
proof fn lemma_advance_known(s: Seq<Segment>, k: int, n: int, r: int)
    requires inorder(s), within(s.take(k), r), below(s, n) <= k <= s.len(), 0 <= n
    ensures within(advance(s, n).take(k - below(s, n)), r - n)
{
    lemma_below(s, n);
    let c = below(s, n);
    let t = advance(s, n).take(k - c);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).end() <= r - n by { assert(s.take(k)[i + c] == s[i + c]); }
}
// the slices that come later do not begin before n
proof fn lemma_advance_parts(a: Seq<Segment>, b: Seq<Segment>, n: int)
    requires inorder(a + b), forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).pos >= n
    ensures
        inorder(a), below(a + b, n) == below(a, n),
        advance(a + b, n) =~= advance(a, n) + shift(b, n),
        0 <= below(a, n) <= a.len(),
{
    let s = a + b;
    assert forall|i: int, j: int| 0 <= i <= j < a.len() implies (#[trigger] a[i]).pos <= (#[trigger] a[j]).pos by { assert(s[i] == a[i] && s[j] == a[j]); }
    lemma_below(a, n);
    let k = below(a, n);
    if k > 0 { assert(s[k - 1] == a[k - 1]); }
    if k < s.len() { if k < a.len() { assert(s[k] == a[k]); } else { assert(s[k] == b[k - a.len()]); } }
    lemma_below_is(s, n, k);
    assert(s.skip(k) =~= a.skip(k) + b);
}
proof fn lemma_inorder_tail(a: Seq<Segment>, k: int)
    requires inorder(a), 0 <= k <= a.len()
    ensures inorder(a.skip(k)), inorder(a.take(k))
{
    assert forall|i: int, j: int| 0 <= i <= j < a.skip(k).len() implies (#[trigger] a.skip(k)[i]).pos <= (#[trigger] a.skip(k)[j]).pos by { assert(a[i + k].pos <= a[j + k].pos); }
    assert forall|i: int, j: int| 0 <= i <= j < a.take(k).len() implies (#[trigger] a.take(k)[i]).pos <= (#[trigger] a.take(k)[j]).pos by { assert(a[i].pos <= a[j].pos); }
}

// std: slice::partition_point
// (f never answers false and then true along the vector)
#[verifier::external_body]
fn partition_point<F: Fn(&Segment) -> bool>(v: &Vec<Segment>, f: F) -> (res: usize)
    requires
        forall|x: &Segment| call_requires(f, (x,)),
        forall|i: int, j: int| 0 <= i <= j < v.len() ==> !(call_ensures(f, (&#[trigger] v@[i],), false) && call_ensures(f, (&#[trigger] v@[j],), true)),
    ensures
        res <= v.len(),
        forall|i: int| 0 <= i < res ==> call_ensures(f, (&#[trigger] v@[i],), true),
        forall|i: int| res <= i < v.len() ==> call_ensures(f, (&#[trigger] v@[i],), false),
{ v.partition_point(|x| f(x)) }

trait SegmentStream {
    spec fn wf(&self) -> bool;
    // the bytes that are not consumed, up to the end of the stream
    spec fn rest(&self) -> Seq<u8>;
    // the slices that are not consumed, exposed or not; positions from the first byte of rest() on
    spec fn segs(&self) -> Seq<Segment>;
    // exposed: bytes, slices, bytes that may be consumed
    spec fn avail(&self) -> int;
    spec fn known(&self) -> int;
    spec fn limit(&self) -> int;
    // no exposed slice has ended after this, and the exposed bytes never end before it
    spec fn reach(&self) -> int;
    // as_slices may be called
    spec fn filled(&self) -> bool;
    // the end is announced at the end of the stream, not before
    spec fn full(&self) -> bool;
    // reach() covers the slices that are consumed already
    spec fn keeps(&self) -> bool;
    // the end has been announced, and will be again
    spec fn ended(&self) -> bool;

    // (end, bytes, slices, bytes that may be consumed)
    fn fill_segment_buf(&mut self) -> (res: Result<(bool, usize, usize, usize)>)
        requires
            old(self).wf(),
        ensures
            res matches Ok((e, b, n, m)) ==> {
                &&& final(self).wf()
                &&& final(self).full() == old(self).full()
                &&& final(self).keeps() == old(self).keeps()
                &&& final(self).rest() =~= (if e { old(self).rest().take(b as int) } else { old(self).rest() })
                &&& final(self).segs() =~= old(self).segs()
                &&& final(self).filled()
                &&& b == final(self).avail() && n == final(self).known() && m == final(self).limit()
                &&& old(self).limit() <= m <= b <= old(self).rest().len()
                &&& old(self).known() <= n <= final(self).segs().len()
                &&& within(final(self).segs().take(n as int), final(self).reach())
                &&& final(self).reach() <= b
                &&& old(self).keeps() ==> old(self).reach() <= final(self).reach()
                // what is exposed later does not begin before m
                &&& forall|i: int| n <= i < final(self).segs().len() ==> (#[trigger] final(self).segs()[i]).pos >= m
                &&& e ==> n == final(self).segs().len() && m == b
                &&& e && final(self).full() ==> b == old(self).rest().len()
                &&& e ==> final(self).ended()
                &&& old(self).ended() ==> e
                &&& old(self).full() ==> b >= old(self).avail()
            };

    fn as_slices(&self) -> (res: (&[u8], &[Segment]))
        requires
            self.wf(),
            self.filled(),
        ensures
            res.0.len() >= self.avail() + MARGIN_SIZE,
            0 <= self.avail() <= self.rest().len(),
            res.0@.subrange(0, self.avail()) =~= self.rest().subrange(0, self.avail()),
            0 <= self.known() <= self.segs().len(),
            res.1@ =~= self.segs().take(self.known());

    // (bytes, slices) that are gone
    fn consume(&mut self, bytes: usize) -> (res: Result<(usize, usize)>)
        requires
            old(self).wf(),
            old(self).filled(),
            bytes <= old(self).limit(),
        ensures
            res matches Ok((b, n)) ==> {
                &&& final(self).wf()
                &&& final(self).full() == old(self).full()
                &&& b <= bytes
                &&& b <= old(self).limit()
                &&& b <= old(self).rest().len()
                &&& final(self).rest() =~= old(self).rest().skip(b as int)
                &&& final(self).segs() =~= advance(old(self).segs(), b as int)
                &&& n == below(old(self).segs(), b as int)
                &&& n <= old(self).known()
                &&& final(self).known() == old(self).known() - n
                &&& final(self).keeps() == old(self).keeps()
                &&& final(self).keeps() ==> final(self).reach() >= old(self).reach() - b
                &&& final(self).limit() == old(self).limit() - b
                &&& old(self).ended() ==> final(self).ended()
                &&& final(self).full() ==> final(self).avail() >= old(self).avail() - b
            };
}

// a source that a stream of slices may be built on
spec fn segok(s: Box<dyn SegmentStream>) -> bool {
    &&& s.wf()
    &&& s.rest().len() <= MAXLEN
    &&& inorder(s.segs())
    &&& within(s.segs(), s.rest().len() as int)
    &&& 0 <= s.known() <= s.segs().len()
    &&& within(s.segs().take(s.known()), s.reach())
    &&& 0 <= s.limit() <= s.rest().len()
    &&& s.keeps()
}
proof fn lemma_segok_fill(s0: Box<dyn SegmentStream>, s: Box<dyn SegmentStream>, e: bool, b: int, n: int)
    requires
        segok(s0), s.wf(), s.rest() =~= (if e { s0.rest().take(b) } else { s0.rest() }), s.segs() =~= s0.segs(),
        s0.limit() <= s.limit() <= b <= s0.rest().len(), s0.known() <= n <= s.segs().len(), n == s.known(),
        within(s.segs().take(n), s.reach()), s.reach() <= b, e ==> n == s.segs().len(), s.keeps() == s0.keeps(),
    ensures segok(s)
{
    assert forall|i: int| 0 <= i < s.segs().len() implies (#[trigger] s.segs()[i]).end() <= s.rest().len() by {
        if e { assert(s.segs().take(n)[i] == s.segs()[i]); } else { assert(s0.segs()[i] == s.segs()[i]); }
    }
    assert(s.segs() == s0.segs());
}
proof fn lemma_segok_consume(s0: Box<dyn SegmentStream>, s: Box<dyn SegmentStream>, b: int, n: int)
    requires
        segok(s0), s.wf(), 0 <= b <= s0.limit(), s.rest() =~= s0.rest().skip(b), s.segs() =~= advance(s0.segs(), b), n == below(s0.segs(), b),
        n <= s0.known(), s.known() == s0.known() - n, s.limit() == s0.limit() - b, s.keeps() == s0.keeps(), s.reach() >= s0.reach() - b,
    ensures segok(s)
{
    lemma_below(s0.segs(), b);
    lemma_advance(s0.segs(), b, s0.rest().len() as int);
    lemma_advance_known(s0.segs(), s0.known(), b, s0.reach());
    assert(s.segs() == advance(s0.segs(), b));
    assert forall|i: int| 0 <= i < s.segs().take(s.known()).len() implies (#[trigger] s.segs().take(s.known())[i]).end() <= s.reach() by {
        assert(advance(s0.segs(), b).take(s0.known() - n)[i].end() <= s0.reach() - b);
    }
}
