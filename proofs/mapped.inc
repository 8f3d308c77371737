// ---- slices that are mapped, sorted, and held back until nothing can come in front of them
// the slice that a mapper makes of [s, e)
spec fn image(m: SegmentMapper, x: (int, int)) -> Seq<Segment> { between(m.start.at(x.0, x.1), m.end.at(x.0, x.1)) }
spec fn of_one(ms: Seq<SegmentMapper>, x: (int, int)) -> Seq<Segment>
    decreases ms.len()
{
    if ms.len() == 0 { Seq::empty() } else { of_one(ms.drop_last(), x) + image(ms.last(), x) }
}
spec fn images(ms: Seq<SegmentMapper>, q: Seq<(int, int)>) -> Seq<Segment>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else { images(ms, q.drop_last()) + of_one(ms, q.last()) }
}
spec fn lowest(m: SegmentMapper, s: int, e: int) -> int { let (a, b) = (m.start.at(s, e), m.end.at(s, e)); if a <= b { a } else { b } }
// no end of an image of [s', e') is before this if s' >= s and e' >= e
spec fn min_at(ms: Seq<SegmentMapper>, s: int, e: int) -> int
    decreases ms.len()
{
    if ms.len() == 0 { 0 } else if ms.len() == 1 { lowest(ms[0], s, e) }
    else { let a = min_at(ms.drop_last(), s, e); let b = lowest(ms.last(), s, e); if a <= b { a } else { b } }
}
spec fn moved(q: Seq<(int, int)>, b: int) -> Seq<(int, int)> { Seq::new(q.len(), |i: int| (q[i].0 - b, q[i].1 - b)) }
spec fn ends_by(q: Seq<Segment>, n: int) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).end() <= n }
spec fn opt_seq(o: Option<Segment>) -> Seq<Segment> { match o { Some(x) => seq![x], None => Seq::empty() } }
spec fn ended_at(q: Seq<Segment>, is_eof: bool, n: int) -> Seq<Segment> { if is_eof { clips(q, n) } else { q } }

proof fn lemma_images_add(ms: Seq<SegmentMapper>, a: Seq<(int, int)>, b: Seq<(int, int)>)
    ensures images(ms, a + b) =~= images(ms, a) + images(ms, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_images_add(ms, a, b.drop_last()); }
}
proof fn lemma_min_at(ms: Seq<SegmentMapper>, s: int, e: int, d: int)
    ensures
        forall|i: int| 0 <= i < ms.len() ==> min_at(ms, s, e) <= lowest(#[trigger] ms[i], s, e),
        ms.len() > 0 ==> min_at(ms, s + d, e + d) == min_at(ms, s, e) + d,
    decreases ms.len()
{
    if ms.len() > 1 {
        let p = ms.drop_last();
        lemma_min_at(p, s, e, d);
        assert forall|i: int| 0 <= i < ms.len() implies min_at(ms, s, e) <= lowest(#[trigger] ms[i], s, e) by { if i < p.len() { assert(p[i] == ms[i]); } }
    }
}
spec fn pair_in(x: (int, int), s: int, e: int) -> bool { s <= x.0 <= MAXLEN && e <= x.1 <= MAXLEN && -MAXLEN <= x.0 && -MAXLEN <= x.1 }
proof fn lemma_of_one(ms: Seq<SegmentMapper>, x: (int, int), s: int, e: int, off: int, b: int)
    requires
        forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).wf() && off <= lowest(ms[i], s, e),
        pair_in(x, s, e), 0 <= b <= zero_or(off),
    ensures
        from_on(of_one(ms, x), b), ends_by(of_one(ms, x), MAXOFF + MAXLEN),
        of_one(ms, (x.0 - b, x.1 - b)) =~= shift(of_one(ms, x), b),
    decreases ms.len()
{
    if ms.len() > 0 {
        let p = ms.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).wf() && off <= lowest(p[i], s, e) by { assert(p[i] == ms[i]); }
        lemma_of_one(p, x, s, e, off, b);
        let m = ms[ms.len() - 1];
        assert(m.wf() && off <= lowest(m, s, e));
    }
}
// the images of pairs at or after (s, e) do not begin before min_at(s, e), and they are moved with the pairs up to there
proof fn lemma_images(ms: Seq<SegmentMapper>, q: Seq<(int, int)>, s: int, e: int, b: int)
    requires
        maps_ok(ms), forall|i: int| 0 <= i < q.len() ==> pair_in(#[trigger] q[i], s, e), 0 <= b <= zero_or(min_at(ms, s, e)),
    ensures
        from_on(images(ms, q), b), ends_by(images(ms, q), MAXOFF + MAXLEN),
        images(ms, moved(q, b)) =~= shift(images(ms, q), b),
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies pair_in(#[trigger] p[i], s, e) by { assert(p[i] == q[i]); }
        lemma_images(ms, p, s, e, b);
        assert(pair_in(q[q.len() - 1], s, e));
        lemma_min_at(ms, s, e, 0);
        lemma_of_one(ms, q.last(), s, e, min_at(ms, s, e), b);
        assert(moved(q, b).drop_last() =~= moved(p, b));
    }
}

// std: v.iter().map(eval_phantom).min().unwrap_or(0)
fn min_of(v: &Vec<SegmentMapper>, phantom: &[isize; 2]) -> (res: isize)
    requires maps_ok(v@), -MAXLEN <= phantom@[0] <= MAXLEN + 1, -MAXLEN <= phantom@[1] <= MAXLEN + 1
    ensures res == min_at(v@, phantom@[0] as int, phantom@[1] as int), -(MAXOFF + MAXLEN) <= res <= MAXOFF + MAXLEN + 1
{
    let mut m: isize = eval_phantom(phantom, &v[0]);
    for k in 1..v.len()
        invariant
            maps_ok(v@), -MAXLEN <= phantom@[0] <= MAXLEN + 1, -MAXLEN <= phantom@[1] <= MAXLEN + 1,
            -(MAXOFF + MAXLEN) <= m <= MAXOFF + MAXLEN + 1,
            m == min_at(v@.take(k as int), phantom@[0] as int, phantom@[1] as int),
    {
        let x = eval_phantom(phantom, &v[k]);
        if x < m { m = x; }
        proof { assert(v@.take(k + 1).drop_last() =~= v@.take(k as int)); assert(v@.take(k + 1).last() == v@[k as int]); }
    }
    proof { assert(v@.take(v.len() as int) =~= v@); }
    m
}
// std: v.iter().take_while(|x| is_ready(x)).count()
fn leading(v: &Vec<Segment>, is_eof: bool, max_consume: usize, bytes: usize) -> (res: usize)
    requires ends_by(v@, usize::MAX as int)
    ensures counted(v@, is_eof, max_consume as int, bytes as int, res as int)
{
    let mut k = 0;
    while k < v.len()
        invariant
            k <= v.len(), ends_by(v@, usize::MAX as int),
            forall|i: int| 0 <= i < k ==> is_eof || ((#[trigger] v@[i]).pos < max_consume && v@[i].end() <= bytes),
        decreases v.len() - k
    {
        if !is_ready(is_eof, max_consume, bytes, &v[k]) { return k; }
        k += 1;
    }
    k
}
// the slices at the head that are all ready
spec fn counted(q: Seq<Segment>, is_eof: bool, lim: int, bytes: int, k: int) -> bool {
    &&& 0 <= k <= q.len()
    &&& is_eof ==> k == q.len()
    &&& forall|i: int| 0 <= i < k ==> is_eof || ((#[trigger] q[i]).pos < lim && q[i].end() <= bytes)
    &&& k < q.len() ==> !(q[k].pos < lim && q[k].end() <= bytes)
}
// what may be consumed then
spec fn held_back(q: Seq<Segment>, lim: int, k: int) -> int { if k < q.len() && q[k].pos < lim { q[k].pos as int } else { lim } }
// std: v.get(k)
fn seg_at(v: &Vec<Segment>, k: usize) -> (res: Option<&Segment>)
    ensures res is Some <==> k < v.len(), res matches Some(x) ==> *x == v@[k as int]
{ if k < v.len() { Some(&v[k]) } else { None } }
proof fn lemma_clips_one(q: Seq<Segment>, n: int)
    requires q.len() <= 1
    ensures clips(q, n) =~= (if q.len() == 1 && q[0].pos < n { seq![clip1(q[0], n)] } else { Seq::empty() })
{
    reveal_with_fuel(clips, 2);
    if q.len() == 1 { assert(q.drop_last() =~= Seq::<Segment>::empty()); }
}

// q: mapped so far, the first c of them exposed; more: mapped later; m bytes may be consumed; nothing later begins before low
spec fn held(q: Seq<Segment>, c: int, more: Seq<Segment>, m: int, low: int, avail: int, n: int, done: bool) -> bool {
    &&& weak(q)
    &&& 0 <= c <= q.len()
    &&& 0 <= m <= n <= MAXLEN
    &&& forall|i: int| 0 <= i < c ==> (#[trigger] q[i]).end() <= avail && q[i].end() <= n && q[i].pos < n
    &&& forall|i: int| c <= i < q.len() ==> (#[trigger] q[i]).pos >= m
    &&& if done { more.len() == 0 } else { m <= low && from_on(more, low) && forall|i: int| 0 <= i < c ==> (#[trigger] q[i]).pos < low }
}
spec fn in_all(q: Seq<Segment>, more: Seq<Segment>, n: int) -> Seq<Segment> { clipped(isort(q + more), n) }
proof fn lemma_held_prefix(q: Seq<Segment>, c: int, more: Seq<Segment>, m: int, low: int, avail: int, n: int, done: bool)
    requires held(q, c, more, m, low, avail, n, done)
    ensures isort(q + more) =~= q.take(c) + isort(q.skip(c) + more), from_on(isort(q.skip(c) + more), m)
{
    let (p, r) = (q.take(c), q.skip(c) + more);
    assert(q + more =~= p + r);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies seg_le(#[trigger] p[i], #[trigger] p[j]) by { assert(seg_le(q[i], q[j])); }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < r.len() implies seg_le(#[trigger] p[i], #[trigger] r[j]) by {
        if j < q.len() - c { assert(seg_le(q[i], q[j + c])); } else { assert(r[j] == more[j - (q.len() - c)]); assert(q[i].pos < low); }
    }
    lemma_isort_prefix(p, r);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).pos >= m by { if i < q.len() - c { assert(r[i] == q[i + c]); } else { assert(r[i] == more[i - (q.len() - c)]); } }
    lemma_isort_shift(r, m);
}
proof fn lemma_held(q: Seq<Segment>, c: int, more: Seq<Segment>, m: int, low: int, avail: int, n: int, done: bool)
    requires held(q, c, more, m, low, avail, n, done)
    ensures
        inorder(in_all(q, more, n)),
        within(in_all(q, more, n), n),
        c <= in_all(q, more, n).len(),
        in_all(q, more, n).take(c) =~= q.take(c),
        within(q.take(c), avail),
        forall|i: int| c <= i < in_all(q, more, n).len() ==> (#[trigger] in_all(q, more, n)[i]).pos >= m,
{
    lemma_held_prefix(q, c, more, m, low, avail, n, done);
    let p = q.take(c);
    let t = isort(q.skip(c) + more);
    let s = isort(q + more);
    let a = in_all(q, more, n);
    lemma_isort(q + more);
    lemma_weak_inorder(s);
    lemma_clipped(s, n);
    lemma_below(s, n);
    if below(s, n) < c { assert(s[below(s, n)] == p[below(s, n)]); assert(p[below(s, n)] == q[below(s, n)]); }
    assert forall|i: int| 0 <= i < c implies a[i] == q[i] by { assert(s[i] == p[i]); }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).end() <= avail by { assert(p[i] == q[i]); }
    assert forall|i: int| c <= i < a.len() implies (#[trigger] a[i]).pos >= m by { assert(s[i] == t[i - c]); }
}
// g is mapped as well: q is sorted again
proof fn lemma_held_fill(q0: Seq<Segment>, c0: int, g: Seq<Segment>, rest: Seq<Segment>, m0: int, low0: int, avail0: int, n: int, done0: bool,
    q: Seq<Segment>, c: int, m: int, low: int, avail: int, e: bool)
    requires
        held(q0, c0, g + rest, m0, low0, avail0, n, done0),
        done0 ==> e,
        low0 <= low, avail0 <= avail <= n, m0 <= avail, 0 <= low <= n,
        e ==> rest.len() == 0 && avail == n,
        from_on(rest, low),
        q == isort(ended_at(q0 + ended_at(g, e, n), e, n)),
        counted(q, e, if e { avail } else { low }, avail, c),
        m == held_back(q, if e { avail } else { low }, c),
    ensures
        held(q, c, rest, m, low, avail, n, e),
        in_all(q, rest, n) =~= in_all(q0, g + rest, n),
        m0 <= m, c0 <= c, e ==> m == avail && c == in_all(q, rest, n).len(),
{
    let more = g + rest;
    assert(q0 + more =~= (q0 + g) + rest);
    if e {
        assert(rest =~= Seq::<Segment>::empty());
        assert(q0 + more =~= q0 + g);
        lemma_clips_add(q0, g, n);
        lemma_clips_add(q0, clips(g, n), n);
        lemma_clips_twice(g, n);
        let t = clips(q0 + g, n);
        assert(clips(q0 + clips(g, n), n) =~= t);
        lemma_clips_isort(q0 + g, n);
        lemma_isort(q0 + g);
        lemma_isort(t);
        lemma_isort_id(q);
        assert(q + rest =~= q);
        lemma_held(q0, c0, more, m0, low0, avail0, n, done0);
        lemma_weak_inorder(isort(q0 + g));
        lemma_clipped(isort(q0 + g), n);
        assert(q == clipped(isort(q0 + g), n));
        lemma_clipped_all(q, n);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).end() <= n && q[i].pos < n by { assert(clipped(isort(q0 + g), n)[i].end() <= n); }
    } else {
        let p0 = q0 + g;
        assert(q == isort(p0));
        lemma_isort_append(p0, rest);
        lemma_isort(p0);
        assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).pos >= low0 by { assert(more[i] == g[i]); }
        lemma_held_prefix(q0, c0, g, m0, low0, avail0, n, done0);
        let t = isort(q0.skip(c0) + g);
        if c < c0 {
            assert(q[c] == q0.take(c0)[c]);
            assert(q0.take(c0)[c] == q0[c]);
            assert(q0[c].pos < low0);
        }
        if c < q.len() { assert(q[c] == t[c - c0]); assert(t[c - c0].pos >= m0); }
        assert forall|i: int| c <= i < q.len() implies (#[trigger] q[i]).pos >= m by { if c < i { assert(seg_le(q[c], q[i])); } }
    }
}
// b bytes are gone
proof fn lemma_held_consume(q0: Seq<Segment>, c0: int, more: Seq<Segment>, m0: int, low0: int, avail0: int, n: int, done: bool, b: int,
    low: int, avail: int)
    requires
        held(q0, c0, more, m0, low0, avail0, n, done), 0 <= b <= m0, low >= low0 - b, from_on(shift(more, b), low) || done, avail >= avail0 - b,
    ensures
        held(advance(q0, b), c0 - below(q0, b), shift(more, b), m0 - b, low, avail, n - b, done),
        0 <= below(q0, b) <= c0,
        below(in_all(q0, more, n), b) == below(q0, b),
        in_all(advance(q0, b), shift(more, b), n - b) =~= advance(in_all(q0, more, n), b),
{
    let k = below(q0, b);
    lemma_weak_inorder(q0);
    lemma_below(q0, b);
    if k > c0 { assert(q0[c0].pos < b); }
    lemma_isort_advance(q0, more, n, b);
    let s = advance(q0, b);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).pos == q0[i + k].pos - b && s[i].end() == q0[i + k].end() - b && q0[i + k].pos >= b by { assert(q0[i + k].pos >= b); }
}
