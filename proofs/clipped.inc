// ---- slices clipped by the end of the stream
// the ones that begin before n, ended at n
spec fn clipped(q: Seq<Segment>, n: int) -> Seq<Segment> {
    Seq::new(below(q, n) as nat, |i: int| Segment { pos: q[i].pos, len: ((if q[i].end() < n { q[i].end() } else { n }) - q[i].pos) as usize })
}
proof fn lemma_clipped(q: Seq<Segment>, n: int)
    requires inorder(q), n <= usize::MAX
    ensures
        0 <= below(q, n) <= q.len(),
        clipped(q, n).len() == below(q, n),
        inorder(clipped(q, n)),
        within(clipped(q, n), n),
        forall|i: int| 0 <= i < clipped(q, n).len() ==> (#[trigger] clipped(q, n)[i]).pos == q[i].pos && clipped(q, n)[i].pos < n,
        forall|i: int| 0 <= i < clipped(q, n).len() && q[i].end() <= n ==> #[trigger] clipped(q, n)[i] == q[i],
{
    lemma_below(q, n);
    let c = clipped(q, n);
    assert forall|i: int, j: int| 0 <= i <= j < c.len() implies (#[trigger] c[i]).pos <= (#[trigger] c[j]).pos by { assert(q[i].pos <= q[j].pos); }
}
// nothing is clipped twice
proof fn lemma_clipped_all(q: Seq<Segment>, n: int)
    requires inorder(q), within(q, n), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).pos < n, n <= usize::MAX
    ensures clipped(q, n) =~= q, below(q, n) == q.len()
{
    lemma_below_is(q, n, q.len() as int);
}
// counting the positions from later on, then clipping
proof fn lemma_clipped_advance(q: Seq<Segment>, n: int, b: int)
    requires inorder(q), 0 <= b <= n <= usize::MAX
    ensures
        inorder(advance(q, b)),
        below(clipped(q, n), b) == below(q, b),
        advance(clipped(q, n), b) =~= clipped(advance(q, b), n - b),
{
    lemma_below(q, b);
    lemma_below(q, n);
    lemma_clipped(q, n);
    let (kb, kn) = (below(q, b), below(q, n));
    if kb > kn { assert(q[kn].pos < b); assert(q[kn].pos >= n); }
    lemma_below_is(clipped(q, n), b, kb);
    let t = advance(q, b);
    assert forall|i: int, j: int| 0 <= i <= j < t.len() implies (#[trigger] t[i]).pos <= (#[trigger] t[j]).pos by { assert(q[i + kb].pos >= b && q[j + kb].pos >= b); assert(q[i + kb].pos <= q[j + kb].pos); }
    if kn - kb > 0 { assert(t[kn - kb - 1].pos == q[kn - 1].pos - b); }
    if kn - kb < t.len() { assert(t[kn - kb].pos == q[kn].pos - b); }
    lemma_below_is(t, n - b, kn - kb);
    let (x, y) = (advance(clipped(q, n), b), clipped(t, n - b));
    assert(x.len() == kn - kb && y.len() == kn - kb);
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by {
        assert(q[i + kb].pos >= b);
        assert(t[i] == Segment { pos: (q[i + kb].pos - b) as usize, len: q[i + kb].len });
        assert(clipped(q, n)[i + kb].pos == q[i + kb].pos);
    }
}

spec fn begins_below(n: int) -> spec_fn(Segment) -> bool { |x: Segment| x.pos < n }
proof fn lemma_filter_below(q: Seq<Segment>, n: int)
    requires inorder(q)
    ensures q.filter(begins_below(n)) =~= q.take(below(q, n)), 0 <= below(q, n) <= q.len()
    decreases q.len()
{
    reveal(Seq::filter);
    lemma_below(q, n);
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int, j: int| 0 <= i <= j < p.len() implies (#[trigger] p[i]).pos <= (#[trigger] p[j]).pos by { assert(q[i].pos <= q[j].pos); }
        lemma_filter_below(p, n);
        lemma_below(p, n);
        if q.last().pos < n {
            lemma_below_is(q, n, q.len() as int);
            if p.len() > 0 { assert(p[p.len() - 1] == q[q.len() - 2]); assert(q[q.len() - 2].pos <= q[q.len() - 1].pos); }
            lemma_below_is(p, n, p.len() as int);
        } else {
            let k = below(q, n);
            if k == q.len() { assert(q[q.len() - 1].pos < n); }
            if k > 0 { assert(p[k - 1] == q[k - 1]); }
            if k < p.len() { assert(p[k] == q[k]); }
            lemma_below_is(p, n, k);
        }
    }
}
// std: v.retain(|x| x.pos < n)
#[verifier::external_body]
fn retain_below(v: &mut Vec<Segment>, n: usize)
    ensures final(v)@ == old(v)@.filter(begins_below(n as int))
{ v.retain(|x| x.pos < n); }
