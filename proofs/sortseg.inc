// ---- slices sorted by start and length
spec fn seg_le(a: Segment, b: Segment) -> bool { a.pos < b.pos || a.pos == b.pos && a.len <= b.len }
spec fn weak(s: Seq<Segment>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> seg_le(#[trigger] s[i], #[trigger] s[j]) }

spec fn ins(q: Seq<Segment>, x: Segment) -> Seq<Segment>
    decreases q.len()
{
    if q.len() == 0 { seq![x] }
    else if seg_le(q.last(), x) { q.push(x) }
    else { ins(q.drop_last(), x).push(q.last()) }
}
spec fn isort(q: Seq<Segment>) -> Seq<Segment>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else { ins(isort(q.drop_last()), q.last()) }
}
spec fn le_all(q: Seq<Segment>, x: Segment) -> bool { forall|i: int| 0 <= i < q.len() ==> seg_le(#[trigger] q[i], x) }

proof fn lemma_weak_inorder(q: Seq<Segment>)
    requires weak(q)
    ensures inorder(q)
{
    assert forall|i: int, j: int| 0 <= i <= j < q.len() implies (#[trigger] q[i]).pos <= (#[trigger] q[j]).pos by { if i < j { assert(seg_le(q[i], q[j])); } }
}
proof fn lemma_weak_sub(q: Seq<Segment>)
    requires weak(q), q.len() > 0
    ensures weak(q.drop_last()), le_all(q.drop_last(), q.last())
{
    let p = q.drop_last();
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies seg_le(#[trigger] p[i], #[trigger] p[j]) by { assert(seg_le(q[i], q[j])); }
    assert forall|i: int| 0 <= i < p.len() implies seg_le(#[trigger] p[i], q.last()) by { assert(seg_le(q[i], q[q.len() - 1])); }
}
proof fn lemma_ins(q: Seq<Segment>, x: Segment)
    requires weak(q)
    ensures
        weak(ins(q, x)),
        ins(q, x).len() == q.len() + 1,
        ins(q, x).to_multiset() == q.to_multiset().insert(x),
        forall|y: Segment| le_all(q, y) && seg_le(x, y) ==> #[trigger] le_all(ins(q, x), y),
    decreases q.len()
{
    let r = ins(q, x);
    if q.len() == 0 {
        assert(r =~= q.push(x));
        q.to_multiset_ensures();
    } else if seg_le(q.last(), x) {
        q.to_multiset_ensures();
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies seg_le(#[trigger] r[i], #[trigger] r[j]) by {
            if j == q.len() { if i < q.len() - 1 { assert(seg_le(q[i], q[q.len() - 1])); } } else { assert(seg_le(q[i], q[j])); }
        }
    } else {
        let (p, l) = (q.drop_last(), q.last());
        lemma_weak_sub(q);
        lemma_ins(p, x);
        let t = ins(p, x);
        assert(le_all(t, l));
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies seg_le(#[trigger] r[i], #[trigger] r[j]) by {
            if j == t.len() { assert(seg_le(t[i], l)); } else { assert(seg_le(t[i], t[j])); }
        }
        t.to_multiset_ensures();
        p.to_multiset_ensures();
        assert(q =~= p.push(l));
        assert(r.to_multiset() =~= q.to_multiset().insert(x));
        assert forall|y: Segment| le_all(q, y) && seg_le(x, y) implies #[trigger] le_all(r, y) by {
            assert forall|i: int| 0 <= i < p.len() implies seg_le(#[trigger] p[i], y) by { assert(seg_le(q[i], y)); }
            assert(le_all(p, y));
            assert(le_all(t, y));
            assert(seg_le(q[q.len() - 1], y));
        }
    }
}
proof fn lemma_isort(q: Seq<Segment>)
    ensures
        weak(isort(q)),
        isort(q).len() == q.len(),
        isort(q).to_multiset() == q.to_multiset(),
    decreases q.len()
{
    if q.len() > 0 {
        lemma_isort(q.drop_last());
        lemma_ins(isort(q.drop_last()), q.last());
        q.drop_last().to_multiset_ensures();
        assert(q =~= q.drop_last().push(q.last()));
        assert(isort(q).to_multiset() =~= q.to_multiset());
    } else {
        assert(isort(q) =~= q);
    }
}
proof fn lemma_isort_id(q: Seq<Segment>)
    requires weak(q)
    ensures isort(q) =~= q
    decreases q.len()
{
    if q.len() > 0 {
        lemma_weak_sub(q);
        lemma_isort_id(q.drop_last());
        let p = q.drop_last();
        if p.len() > 0 { assert(seg_le(p[p.len() - 1], q.last())); }
    }
}
proof fn lemma_isort_append(a: Seq<Segment>, b: Seq<Segment>)
    ensures isort(isort(a) + b) == isort(a + b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(isort(a) + b =~= isort(a));
        lemma_isort(a);
        lemma_isort_id(isort(a));
    } else {
        lemma_isort_append(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((isort(a) + b).drop_last() =~= isort(a) + b.drop_last());
    }
}
// what comes before everything else stays there
proof fn lemma_ins_prefix(p: Seq<Segment>, t: Seq<Segment>, x: Segment)
    requires weak(p), le_all(p, x)
    ensures ins(p + t, x) =~= p + ins(t, x)
    decreases t.len()
{
    if t.len() == 0 {
        assert(p + t =~= p);
        if p.len() > 0 { assert(seg_le(p[p.len() - 1], x)); }
    } else {
        assert((p + t).last() == t.last());
        assert((p + t).drop_last() =~= p + t.drop_last());
        if !seg_le(t.last(), x) { lemma_ins_prefix(p, t.drop_last(), x); }
    }
}
spec fn all_le(p: Seq<Segment>, q: Seq<Segment>) -> bool { forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < q.len() ==> seg_le(#[trigger] p[i], #[trigger] q[j]) }
proof fn lemma_isort_prefix(p: Seq<Segment>, q: Seq<Segment>)
    requires weak(p), all_le(p, q)
    ensures isort(p + q) =~= p + isort(q)
    decreases q.len()
{
    if q.len() == 0 {
        assert(p + q =~= p);
        lemma_isort_id(p);
    } else {
        let s = q.drop_last();
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < s.len() implies seg_le(#[trigger] p[i], #[trigger] s[j]) by { assert(seg_le(p[i], q[j])); }
        lemma_isort_prefix(p, s);
        assert((p + q).drop_last() =~= p + s);
        assert forall|i: int| 0 <= i < p.len() implies seg_le(#[trigger] p[i], q.last()) by { assert(seg_le(p[i], q[q.len() - 1])); }
        lemma_ins_prefix(p, isort(s), q.last());
    }
}
// positions counted from n on
spec fn shift1(x: Segment, n: int) -> Segment { Segment { pos: (x.pos - n) as usize, len: x.len } }
spec fn from_on(q: Seq<Segment>, n: int) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).pos >= n }
proof fn lemma_ins_shift(q: Seq<Segment>, x: Segment, n: int)
    requires from_on(q, n), x.pos >= n, 0 <= n
    ensures shift(ins(q, x), n) =~= ins(shift(q, n), shift1(x, n)), from_on(ins(q, x), n)
    decreases q.len()
{
    if q.len() > 0 {
        assert(q[q.len() - 1].pos >= n);
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).pos >= n by { assert(q[i].pos >= n); }
        assert(shift(q, n).drop_last() =~= shift(p, n));
        if !seg_le(q.last(), x) { lemma_ins_shift(p, x, n); }
    }
}
proof fn lemma_isort_shift(q: Seq<Segment>, n: int)
    requires from_on(q, n), 0 <= n
    ensures shift(isort(q), n) =~= isort(shift(q, n)), from_on(isort(q), n)
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).pos >= n by { assert(q[i].pos >= n); }
        assert(q[q.len() - 1].pos >= n);
        lemma_isort_shift(p, n);
        lemma_ins_shift(isort(p), q.last(), n);
        assert(shift(q, n).drop_last() =~= shift(p, n));
    }
}
// clipped by the end of the stream
spec fn clip1(x: Segment, n: int) -> Segment { Segment { pos: x.pos, len: ((if x.end() < n { x.end() } else { n }) - x.pos) as usize } }
spec fn clips(q: Seq<Segment>, n: int) -> Seq<Segment>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() }
    else if q.last().pos < n { clips(q.drop_last(), n).push(clip1(q.last(), n)) }
    else { clips(q.drop_last(), n) }
}
proof fn lemma_clips_add(a: Seq<Segment>, b: Seq<Segment>, n: int)
    ensures clips(a + b, n) =~= clips(a, n) + clips(b, n)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_clips_add(a, b.drop_last(), n);
    }
}
proof fn lemma_clips_twice(q: Seq<Segment>, n: int)
    requires n <= usize::MAX
    ensures
        clips(clips(q, n), n) =~= clips(q, n),
        forall|i: int| 0 <= i < clips(q, n).len() ==> (#[trigger] clips(q, n)[i]).pos < n && clips(q, n)[i].end() <= n,
    decreases q.len()
{
    if q.len() > 0 {
        lemma_clips_twice(q.drop_last(), n);
        if q.last().pos < n {
            let c = clips(q.drop_last(), n);
            assert(clips(q, n).drop_last() =~= c);
        }
    }
}
proof fn lemma_clips_id(q: Seq<Segment>, n: int)
    requires n <= usize::MAX, forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).pos < n && q[i].end() <= n
    ensures clips(q, n) =~= q
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).pos < n && p[i].end() <= n by { assert(q[i].pos < n); }
        lemma_clips_id(p, n);
        assert(q[q.len() - 1].pos < n);
    }
}
// filtering, then clipping one by one
proof fn lemma_clips_filter(q: Seq<Segment>, n: int)
    ensures
        clips(q, n).len() == q.filter(begins_below(n)).len(),
        forall|i: int| 0 <= i < clips(q, n).len() ==> #[trigger] clips(q, n)[i] == clip1(q.filter(begins_below(n))[i], n),
        forall|i: int| 0 <= i < clips(q, n).len() ==> (#[trigger] q.filter(begins_below(n))[i]).pos < n && q.contains(q.filter(begins_below(n))[i]),
    decreases q.len()
{
    reveal(Seq::filter);
    if q.len() > 0 {
        let p = q.drop_last();
        lemma_clips_filter(p, n);
        assert(q[q.len() - 1] == q.last());
        let (f, g) = (p.filter(begins_below(n)), q.filter(begins_below(n)));
        assert forall|i: int| 0 <= i < clips(q, n).len() implies (#[trigger] g[i]).pos < n && q.contains(g[i]) by {
            if i < f.len() { assert(p.contains(f[i])); let k = choose|k: int| 0 <= k < p.len() && p[k] == f[i]; assert(q[k] == g[i]); }
        }
    }
}
proof fn lemma_clips_prefix(q: Seq<Segment>, n: int)
    requires inorder(q)
    ensures clips(q, n) =~= clipped(q, n)
{
    lemma_filter_below(q, n);
    lemma_clips_filter(q, n);
    lemma_below(q, n);
    let f = q.filter(begins_below(n));
    assert forall|i: int| 0 <= i < clips(q, n).len() implies clips(q, n)[i] == clipped(q, n)[i] by { assert(f[i] == q.take(below(q, n))[i]); }
}
proof fn lemma_clip_le(x: Segment, y: Segment, n: int)
    requires seg_le(x, y), y.pos < n, n <= usize::MAX
    ensures seg_le(clip1(x, n), clip1(y, n))
{
}
proof fn lemma_clips_le(q: Seq<Segment>, x: Segment, n: int)
    requires le_all(q, x), x.pos < n, n <= usize::MAX
    ensures le_all(clips(q, n), clip1(x, n))
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies seg_le(#[trigger] p[i], x) by { assert(seg_le(q[i], x)); }
        lemma_clips_le(p, x, n);
        assert(seg_le(q[q.len() - 1], x));
        lemma_clip_le(q.last(), x, n);
    }
}
proof fn lemma_clips_ins(t: Seq<Segment>, x: Segment, n: int)
    requires weak(t), n <= usize::MAX
    ensures clips(ins(t, x), n) =~= (if x.pos < n { ins(clips(t, n), clip1(x, n)) } else { clips(t, n) })
    decreases t.len()
{
    if t.len() == 0 {
        assert(ins(t, x).drop_last() =~= t);
    } else if seg_le(t.last(), x) {
        assert(ins(t, x).drop_last() =~= t);
        if x.pos < n {
            lemma_weak_sub(t);
            assert forall|i: int| 0 <= i < t.len() implies seg_le(#[trigger] t[i], x) by { if i < t.len() - 1 { assert(seg_le(t[i], t[t.len() - 1])); } }
            lemma_clips_le(t, x, n);
            let c = clips(t, n);
            if c.len() > 0 { assert(seg_le(c[c.len() - 1], clip1(x, n))); }
        }
    } else {
        let (p, l) = (t.drop_last(), t.last());
        lemma_weak_sub(t);
        lemma_clips_ins(p, x, n);
        assert(ins(t, x).drop_last() =~= ins(p, x));
        if x.pos < n && l.pos < n {
            let (cx, cl) = (clip1(x, n), clip1(l, n));
            assert(seg_le(x, l));
            lemma_clip_le(x, l, n);
            let c = clips(p, n);
            assert(clips(t, n) =~= c.push(cl));
            assert(clips(t, n).drop_last() =~= c);
            if seg_le(cl, cx) {
                assert(cl == cx);
                lemma_clips_le(p, l, n);
                if c.len() > 0 { assert(seg_le(c[c.len() - 1], cl)); }
            }
        }
    }
}
// sorting and clipping can be exchanged
proof fn lemma_clips_isort(q: Seq<Segment>, n: int)
    requires n <= usize::MAX
    ensures clipped(isort(q), n) =~= isort(clips(q, n)), clips(isort(q), n) =~= isort(clips(q, n))
    decreases q.len()
{
    lemma_isort(q);
    lemma_weak_inorder(isort(q));
    lemma_clips_prefix(isort(q), n);
    if q.len() > 0 {
        let p = q.drop_last();
        lemma_clips_isort(p, n);
        lemma_isort(p);
        lemma_clips_ins(isort(p), q.last(), n);
        if q.last().pos < n { assert(clips(q, n).drop_last() =~= clips(p, n)); }
    }
}
// the first b bytes are gone: a is sorted, r comes later
proof fn lemma_isort_advance(a: Seq<Segment>, r: Seq<Segment>, n: int, b: int)
    requires weak(a), from_on(r, b), 0 <= b <= n <= usize::MAX
    ensures
        weak(advance(a, b)),
        0 <= below(a, b) <= a.len(),
        below(clipped(isort(a + r), n), b) == below(a, b),
        clipped(isort(advance(a, b) + shift(r, b)), n - b) =~= advance(clipped(isort(a + r), n), b),
{
    lemma_weak_inorder(a);
    lemma_below(a, b);
    let k = below(a, b);
    let (p, q) = (a.take(k), a.skip(k) + r);
    assert(a + r =~= p + q);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies seg_le(#[trigger] p[i], #[trigger] p[j]) by { assert(seg_le(a[i], a[j])); }
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).pos >= b by { if i < a.len() - k { assert(q[i] == a[i + k]); } else { assert(q[i] == r[i - (a.len() - k)]); } }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < q.len() implies seg_le(#[trigger] p[i], #[trigger] q[j]) by { assert(a[i].pos < b); }
    lemma_isort_prefix(p, q);
    lemma_isort_shift(q, b);
    lemma_isort(a + r);
    lemma_weak_inorder(isort(a + r));
    let s = isort(a + r);
    let t = isort(q);
    lemma_isort(q);
    if k > 0 { assert(s[k - 1] == p[k - 1]); assert(a[k - 1].pos < b); }
    if k < s.len() { assert(s[k] == t[0]); assert(t[0].pos >= b); }
    lemma_below_is(s, b, k);
    lemma_clipped_advance(s, n, b);
    assert(s.skip(k) =~= t);
    assert(shift(q, b) =~= advance(a, b) + shift(r, b));
    let d = advance(a, b);
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies seg_le(#[trigger] d[i], #[trigger] d[j]) by { assert(seg_le(a[i + k], a[j + k])); assert(a[i + k].pos >= b && a[j + k].pos >= b); }
}
// std: v.sort_by_key(|x| (x.pos, x.len))
#[verifier::external_body]
fn sort_segments(v: &mut Vec<Segment>)
    ensures weak(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset()
{ v.sort_by_key(|x| (x.pos, x.len)); }
proof fn lemma_sorted_is(a: Seq<Segment>, b: Seq<Segment>)
    requires weak(b), a.to_multiset() == b.to_multiset()
    ensures b == isort(a)
{
    lemma_isort(a);
    let le = |x: Segment, y: Segment| seg_le(x, y);
    let s = isort(a);
    assert(vstd::relations::sorted_by(s, le)) by { assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] le(s[i], s[j]) by { assert(seg_le(s[i], s[j])); } }
    assert(vstd::relations::sorted_by(b, le)) by { assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] le(b[i], b[j]) by { assert(seg_le(b[i], b[j])); } }
    vstd::seq_lib::lemma_sorted_unique(s, b, le);
}
proof fn lemma_isort_ends(q: Seq<Segment>, n: int)
    requires forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).end() <= n
    ensures forall|i: int| 0 <= i < isort(q).len() ==> (#[trigger] isort(q)[i]).end() <= n
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).end() <= n by { assert(p[i] == q[i]); }
        lemma_isort_ends(p, n);
        assert(q[q.len() - 1].end() <= n);
        lemma_ins_ends(isort(p), q.last(), n);
    }
}
proof fn lemma_ins_ends(q: Seq<Segment>, x: Segment, n: int)
    requires forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).end() <= n, x.end() <= n
    ensures forall|i: int| 0 <= i < ins(q, x).len() ==> (#[trigger] ins(q, x)[i]).end() <= n
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).end() <= n by { assert(p[i] == q[i]); }
        assert(q[q.len() - 1].end() <= n);
        let r = ins(q, x);
        if !seg_le(q.last(), x) { lemma_ins_ends(p, x, n); }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).end() <= n by {
            if seg_le(q.last(), x) { if i < q.len() { assert(r[i] == q[i]); } }
            else if i < ins(p, x).len() { assert(r[i] == ins(p, x)[i]); }
        }
    }
}
