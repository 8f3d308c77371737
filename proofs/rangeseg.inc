// ---- slices named by ranges, in order and each once
spec fn seg_le(a: Segment, b: Segment) -> bool { a.pos < b.pos || a.pos == b.pos && a.len <= b.len }
spec fn seg_lt(a: Segment, b: Segment) -> bool { a.pos < b.pos || a.pos == b.pos && a.len < b.len }
spec fn strict(s: Seq<Segment>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> seg_lt(#[trigger] s[i], #[trigger] s[j]) }
spec fn weak(s: Seq<Segment>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> seg_le(#[trigger] s[i], #[trigger] s[j]) }

// the slice of a range in a stream of `total` bytes, with positions counted from `base`: it ends at the end of the stream
spec fn gives(r: RangeMapper, base: int, total: int, x: Segment) -> bool {
    &&& r.lo(total) < r.hi(total)
    &&& r.lo(total) < total
    &&& x.pos == r.lo(total) - base
    &&& x.end() == (if r.hi(total) < total { r.hi(total) } else { total }) - base
}
spec fn some_gives(rs: Seq<RangeMapper>, base: int, total: int, x: Segment) -> bool {
    exists|r: RangeMapper| #[trigger] rs.contains(r) && gives(r, base, total, x)
}
// no range begins before n
spec fn from(rs: Seq<RangeMapper>, total: int, n: int) -> bool { forall|r: RangeMapper| #[trigger] rs.contains(r) ==> r.lo(total) >= n }

// the slices of q do not come after those of the ranges
spec fn before(q: Seq<Segment>, rs: Seq<RangeMapper>, base: int, total: int) -> bool {
    forall|r: RangeMapper, i: int| #[trigger] rs.contains(r) && has_slice(r, total) && 0 <= i < q.len() ==> seg_le(#[trigger] q[i], slice_of(r, base, total))
}

spec fn insert(q: Seq<Segment>, x: Segment) -> Seq<Segment>
    decreases q.len()
{
    if q.len() == 0 { seq![x] }
    else if q.last() == x { q }
    else if seg_lt(q.last(), x) { q.push(x) }
    else { insert(q.drop_last(), x).push(q.last()) }
}
spec fn slice_of(r: RangeMapper, base: int, total: int) -> Segment {
    Segment { pos: (r.lo(total) - base) as usize, len: ((if r.hi(total) < total { r.hi(total) } else { total }) - r.lo(total)) as usize }
}
spec fn has_slice(r: RangeMapper, total: int) -> bool { r.lo(total) < r.hi(total) && r.lo(total) < total }
spec fn onto(q: Seq<Segment>, rs: Seq<RangeMapper>, base: int, total: int) -> Seq<Segment>
    decreases rs.len()
{
    if rs.len() == 0 { q } else {
        let t = onto(q, rs.drop_last(), base, total);
        if has_slice(rs.last(), total) { insert(t, slice_of(rs.last(), base, total)) } else { t }
    }
}

proof fn lemma_insert(q: Seq<Segment>, x: Segment, k: int)
    requires strict(q), 0 <= k <= q.len(), forall|i: int| 0 <= i < k ==> seg_le(#[trigger] q[i], x)
    ensures
        strict(insert(q, x)),
        insert(q, x).len() >= q.len(),
        forall|y: Segment| #[trigger] insert(q, x).contains(y) <==> q.contains(y) || y == x,
        insert(q, x).take(k) =~= q.take(k),
    decreases q.len()
{
    let r = insert(q, x);
    if q.len() == 0 {
        assert(r[0] == x);
        assert forall|y: Segment| #[trigger] r.contains(y) <==> q.contains(y) || y == x by { if y == x { assert(r[0] == y); } }
    } else if q.last() == x {
        assert(q[q.len() - 1] == x);
    } else if seg_lt(q.last(), x) {
        assert forall|y: Segment| #[trigger] r.contains(y) <==> q.contains(y) || y == x by {
            if y == x { assert(r[q.len() as int] == y); }
            if q.contains(y) { let i = choose|i: int| 0 <= i < q.len() && q[i] == y; assert(r[i] == y); }
            if r.contains(y) { let i = choose|i: int| 0 <= i < r.len() && r[i] == y; if i < q.len() { assert(q[i] == y); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies seg_lt(#[trigger] r[i], #[trigger] r[j]) by {
            if j == q.len() { if i < q.len() - 1 { assert(seg_lt(q[i], q[q.len() - 1])); } } else { assert(seg_lt(q[i], q[j])); }
        }
    } else {
        let p = q.drop_last();
        let l = q.last();
        assert(seg_lt(x, l));
        if k == q.len() { assert(seg_le(q[k - 1], x)); }
        lemma_insert(p, x, k);
        let t = insert(p, x);
        assert forall|i: int| 0 <= i < t.len() implies seg_lt(#[trigger] t[i], l) by {
            assert(t.contains(t[i]));
            if p.contains(t[i]) { let j = choose|j: int| 0 <= j < p.len() && p[j] == t[i]; assert(seg_lt(q[j], q[q.len() - 1])); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies seg_lt(#[trigger] r[i], #[trigger] r[j]) by {
            if j == t.len() { assert(seg_lt(t[i], l)); } else { assert(seg_lt(t[i], t[j])); }
        }
        assert forall|y: Segment| #[trigger] r.contains(y) <==> q.contains(y) || y == x by {
            if r.contains(y) {
                let i = choose|i: int| 0 <= i < r.len() && r[i] == y;
                if i < t.len() { assert(t[i] == y); assert(t.contains(y)); if p.contains(y) { let j = choose|j: int| 0 <= j < p.len() && p[j] == y; assert(q[j] == y); } }
                else { assert(q[q.len() - 1] == y); }
            }
            if q.contains(y) {
                let j = choose|j: int| 0 <= j < q.len() && q[j] == y;
                if j < p.len() { assert(p[j] == y); assert(t.contains(y)); } else { assert(r[t.len() as int] == y); }
            }
            if y == x { assert(t.contains(y)); }
            if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; assert(r[i] == y); }
        }
        assert(r.take(k) =~= t.take(k));
        assert(p.take(k) =~= q.take(k));
    }
}
proof fn lemma_gives(r: RangeMapper, base: int, total: int, x: Segment)
    requires total <= MAXLEN, 0 <= base, r.lo(total) >= base
    ensures gives(r, base, total, x) <==> has_slice(r, total) && x == slice_of(r, base, total)
{
}
proof fn lemma_onto(q: Seq<Segment>, rs: Seq<RangeMapper>, base: int, total: int)
    requires
        strict(q), 0 <= base, total <= MAXLEN, from(rs, total, base),
        before(q, rs, base, total),
    ensures
        strict(onto(q, rs, base, total)),
        onto(q, rs, base, total).len() >= q.len(),
        forall|x: Segment| #[trigger] onto(q, rs, base, total).contains(x) <==> q.contains(x) || some_gives(rs, base, total, x),
        onto(q, rs, base, total).take(q.len() as int) =~= q,
    decreases rs.len()
{
    let res = onto(q, rs, base, total);
    if rs.len() == 0 {
        assert(q.take(q.len() as int) =~= q);
        assert forall|x: Segment| !some_gives(rs, base, total, x) by {}
    } else {
        let p = rs.drop_last();
        let l = rs.last();
        assert forall|r: RangeMapper| #[trigger] p.contains(r) implies rs.contains(r) by {
            let i = choose|i: int| 0 <= i < p.len() && p[i] == r; assert(rs[i] == r);
        }
        assert(rs[rs.len() - 1] == l);
        assert(rs.contains(l));
        lemma_onto(q, p, base, total);
        let t = onto(q, p, base, total);
        assert forall|x: Segment| some_gives(rs, base, total, x) <==> some_gives(p, base, total, x) || gives(l, base, total, x) by {
            if some_gives(rs, base, total, x) {
                let r = choose|r: RangeMapper| #[trigger] rs.contains(r) && gives(r, base, total, x);
                let i = choose|i: int| 0 <= i < rs.len() && rs[i] == r;
                if i < p.len() { assert(p[i] == r); assert(p.contains(r)); }
            }
            if gives(l, base, total, x) { assert(rs.contains(l)); }
        }
        assert forall|x: Segment| gives(l, base, total, x) <==> has_slice(l, total) && x == slice_of(l, base, total) by { lemma_gives(l, base, total, x); }
        if has_slice(l, total) {
            let x = slice_of(l, base, total);
            assert(rs.contains(l));
            assert forall|i: int| 0 <= i < q.len() implies seg_le(#[trigger] t[i], x) by { assert(t.take(q.len() as int)[i] == q[i]); assert(t[i] == q[i]); }
            lemma_insert(t, x, q.len() as int);
        }
    }
}
// nothing changes when the positions are counted from later on
proof fn lemma_onto_advance(q: Seq<Segment>, rs: Seq<RangeMapper>, base: int, total: int, b: int, lim: int)
    requires
        strict(q), 0 <= base, 0 <= b <= lim, total <= MAXLEN, from(rs, total, base + lim), before(q, rs, base, total),
    ensures
        strict(advance(q, b)),
        before(advance(q, b), rs, base + b, total),
        onto(advance(q, b), rs, base + b, total) =~= advance(onto(q, rs, base, total), b),
        below(onto(q, rs, base, total), b) == below(q, b),
        0 <= below(q, b) <= q.len(),
{
    lemma_onto(q, rs, base, total);
    let a0 = onto(q, rs, base, total);
    let tl = a0.skip(q.len() as int);
    assert forall|i: int, j: int| 0 <= i <= j < a0.len() implies (#[trigger] a0[i]).pos <= (#[trigger] a0[j]).pos by { if i < j { assert(seg_lt(a0[i], a0[j])); } }
    assert forall|i: int, j: int| 0 <= i <= j < q.len() implies (#[trigger] q[i]).pos <= (#[trigger] q[j]).pos by { if i < j { assert(seg_lt(q[i], q[j])); } }
    assert(a0 =~= q + tl);
    assert forall|i: int| 0 <= i < tl.len() implies some_gives(rs, base, total, #[trigger] tl[i]) by {
        let y = a0[i + q.len()];
        assert(a0.contains(y));
        if q.contains(y) {
            let j = choose|j: int| 0 <= j < q.len() && q[j] == y;
            assert(a0[j] == y);
            assert(seg_lt(a0[j], a0[i + q.len()]));
        }
    }
    assert forall|i: int| 0 <= i < tl.len() implies (#[trigger] tl[i]).pos >= b by {
        assert(some_gives(rs, base, total, tl[i]));
    }
    lemma_advance_parts(q, tl, b);
    lemma_below(q, b);
    let f = below(q, b);
    let sg = advance(q, b);
    let nb = base + b;
    assert forall|i: int| 0 <= i < sg.len() implies (#[trigger] sg[i]).pos == q[i + f].pos - b && sg[i].len == q[i + f].len by { assert(q[i + f].pos >= b); }
    assert forall|i: int, j: int| 0 <= i < j < sg.len() implies seg_lt(#[trigger] sg[i], #[trigger] sg[j]) by { assert(seg_lt(q[i + f], q[j + f])); }
    assert forall|r: RangeMapper, i: int| #[trigger] rs.contains(r) && has_slice(r, total) && 0 <= i < sg.len() implies seg_le(#[trigger] sg[i], slice_of(r, nb, total)) by {
        assert(seg_le(q[i + f], slice_of(r, base, total)));
        assert(r.lo(total) >= base + lim);
    }
    lemma_onto(sg, rs, nb, total);
    let got = onto(sg, rs, nb, total);
    let want = advance(a0, b);
    assert(want =~= sg + shift(tl, b));
    assert forall|i: int, j: int| 0 <= i < j < want.len() implies seg_lt(#[trigger] want[i], #[trigger] want[j]) by {
        assert(seg_lt(a0[i + f], a0[j + f]));
        assert(a0.skip(f)[i] == a0[i + f]);
        lemma_below(a0, b);
        assert(a0[i + f].pos >= b);
        assert(a0[j + f].pos >= b);
    }
    assert forall|x: Segment| #![trigger got.contains(x)] #![trigger want.contains(x)] got.contains(x) <==> want.contains(x) by {
        if want.contains(x) { lemma_want_in(q, rs, base, total, b, lim, x, tl, sg); }
        if got.contains(x) { lemma_got_in(q, rs, base, total, b, lim, x, tl, sg); }
    }
    lemma_strict_unique(got, want);
}
proof fn lemma_want_in(q: Seq<Segment>, rs: Seq<RangeMapper>, base: int, total: int, b: int, lim: int, x: Segment, tl: Seq<Segment>, sg: Seq<Segment>)
    requires
        (sg + shift(tl, b)).contains(x), from(rs, total, base + lim), 0 <= b <= lim,
        forall|i: int| 0 <= i < tl.len() ==> some_gives(rs, base, total, #[trigger] tl[i]),
    ensures sg.contains(x) || some_gives(rs, base + b, total, x)
{
    let want = sg + shift(tl, b);
    let i = choose|i: int| 0 <= i < want.len() && want[i] == x;
    if i < sg.len() { assert(sg[i] == x); }
    else {
        let y = tl[i - sg.len()];
        assert(some_gives(rs, base, total, y));
        let r = choose|r: RangeMapper| #[trigger] rs.contains(r) && gives(r, base, total, y);
        assert(gives(r, base + b, total, x));
    }
}
proof fn lemma_got_in(q: Seq<Segment>, rs: Seq<RangeMapper>, base: int, total: int, b: int, lim: int, x: Segment, tl: Seq<Segment>, sg: Seq<Segment>)
    requires
        sg.contains(x) || some_gives(rs, base + b, total, x), from(rs, total, base + lim), 0 <= b <= lim, 0 <= base, total <= MAXLEN,
        sg == advance(q, b), inorder(q),
        forall|y: Segment| #[trigger] (q + tl).contains(y) <==> q.contains(y) || some_gives(rs, base, total, y),
    ensures (sg + shift(tl, b)).contains(x)
{
    let want = sg + shift(tl, b);
    if sg.contains(x) { let i = choose|i: int| 0 <= i < sg.len() && sg[i] == x; assert(want[i] == x); }
    else {
        let r = choose|r: RangeMapper| #[trigger] rs.contains(r) && gives(r, base + b, total, x);
        let y = Segment { pos: (x.pos + b) as usize, len: x.len };
        assert(r.lo(total) >= base + lim);
        assert(gives(r, base, total, y));
        assert(some_gives(rs, base, total, y));
        assert((q + tl).contains(y));
        let i = choose|i: int| 0 <= i < (q + tl).len() && (q + tl)[i] == y;
        lemma_below(q, b);
        let f = below(q, b);
        if i < q.len() { assert(q[i] == y); assert(i >= f); assert(sg[i - f] == x); assert(want[i - f] == x); }
        else { assert(tl[i - q.len()] == y); assert(want[i - q.len() + sg.len()] == x); }
    }
}
proof fn lemma_strict_unique(a: Seq<Segment>, b: Seq<Segment>)
    requires strict(a), strict(b), forall|x: Segment| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) <==> b.contains(x)
    ensures a =~= b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
    } else {
        assert(a.contains(a[0]));
        assert(b.contains(a[0]));
        let la = a[a.len() - 1];
        let lb = b[b.len() - 1];
        assert(a.contains(la));
        assert(b.contains(lb));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == la;
        let j = choose|j: int| 0 <= j < a.len() && a[j] == lb;
        if i < b.len() - 1 { assert(seg_lt(b[i], b[b.len() - 1])); }
        if j < a.len() - 1 { assert(seg_lt(a[j], a[a.len() - 1])); }
        assert(la == lb);
        let p = a.drop_last();
        let q = b.drop_last();
        assert forall|x: Segment| #![trigger p.contains(x)] #![trigger q.contains(x)] p.contains(x) <==> q.contains(x) by {
            if p.contains(x) {
                let k = choose|k: int| 0 <= k < p.len() && p[k] == x;
                assert(a[k] == x); assert(a.contains(x)); assert(b.contains(x));
                let m = choose|m: int| 0 <= m < b.len() && b[m] == x;
                assert(seg_lt(a[k], la));
                assert(q[m] == x);
            }
            if q.contains(x) {
                let k = choose|k: int| 0 <= k < q.len() && q[k] == x;
                assert(b[k] == x); assert(b.contains(x)); assert(a.contains(x));
                let m = choose|m: int| 0 <= m < a.len() && a[m] == x;
                assert(seg_lt(b[k], lb));
                assert(p[m] == x);
            }
        }
        lemma_strict_unique(p, q);
        assert(a =~= p.push(la));
        assert(b =~= q.push(lb));
    }
}

// std: Vec::dedup drops what equals the one before it
spec fn deduped(s: Seq<Segment>) -> Seq<Segment>
    decreases s.len()
{
    if s.len() <= 1 { s } else if s[s.len() - 1] == s[s.len() - 2] { deduped(s.drop_last()) } else { deduped(s.drop_last()).push(s.last()) }
}
#[verifier::external_body]
fn dedup(v: &mut Vec<Segment>)
    ensures final(v)@ == deduped(old(v)@)
{ unimplemented!() }
proof fn lemma_deduped(s: Seq<Segment>, k: int)
    requires weak(s), 0 <= k <= s.len(), strict(s.take(k))
    ensures
        strict(deduped(s)),
        forall|x: Segment| #[trigger] deduped(s).contains(x) <==> s.contains(x),
        s.len() > 0 ==> deduped(s).len() > 0 && deduped(s).last() == s.last(),
        deduped(s).len() >= k,
    decreases s.len()
{
    let d = deduped(s);
    if s.len() <= 1 {
    } else {
        let p = s.drop_last();
        let l = s[s.len() - 1];
        if k == s.len() { assert(s.take(k)[k - 2] == s[k - 2] && s.take(k)[k - 1] == s[k - 1]); assert(seg_lt(s.take(k)[k - 2], s.take(k)[k - 1])); }
        let k1 = if k == s.len() { k - 1 } else { k };
        assert forall|i: int, j: int| 0 <= i < j < p.take(k1).len() implies seg_lt(#[trigger] p.take(k1)[i], #[trigger] p.take(k1)[j]) by { assert(seg_lt(s.take(k)[i], s.take(k)[j])); }
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies seg_le(#[trigger] p[i], #[trigger] p[j]) by { assert(seg_le(s[i], s[j])); }
        lemma_deduped(p, k1);
        let t = deduped(p);
        assert(seg_le(s[s.len() - 2], s[s.len() - 1]));
        assert forall|x: Segment| s.contains(x) <==> p.contains(x) || x == l by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < p.len() { assert(p[i] == x); } }
            if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); }
        }
        if l == s[s.len() - 2] {
            assert(p[p.len() - 1] == l); assert(p.contains(l));
            assert(k < s.len());
        } else {
            assert(d =~= t.push(l));
            assert forall|x: Segment| #[trigger] d.contains(x) <==> t.contains(x) || x == l by {
                if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; if i < t.len() { assert(t[i] == x); } }
                if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(d[i] == x); }
                if x == l { assert(d[t.len() as int] == x); }
            }
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies seg_lt(#[trigger] d[i], #[trigger] d[j]) by {
                if j == t.len() { if i < t.len() - 1 { assert(seg_lt(t[i], t[t.len() - 1])); } } else { assert(seg_lt(t[i], t[j])); }
            }
        }
    }
}
proof fn lemma_perm_contains(a: Seq<RangeMapper>, b: Seq<RangeMapper>)
    requires a.to_multiset() == b.to_multiset()
    ensures forall|r: RangeMapper| #![trigger a.contains(r)] #![trigger b.contains(r)] a.contains(r) <==> b.contains(r)
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|r: RangeMapper| #![trigger a.contains(r)] #![trigger b.contains(r)] a.contains(r) <==> b.contains(r) by {
        assert(a.contains(r) <==> a.to_multiset().count(r) > 0);
        assert(b.contains(r) <==> b.to_multiset().count(r) > 0);
    }
}
proof fn lemma_push_contains(v: Seq<RangeMapper>, f: RangeMapper)
    ensures forall|r: RangeMapper| #![trigger v.push(f).contains(r)] #![trigger v.contains(r)] v.push(f).contains(r) <==> v.contains(r) || r == f
{
    let w = v.push(f);
    assert forall|r: RangeMapper| #[trigger] w.contains(r) <==> v.contains(r) || r == f by {
        if w.contains(r) { let i = choose|i: int| 0 <= i < w.len() && w[i] == r; if i < v.len() { assert(v[i] == r); } }
        if v.contains(r) { let i = choose|i: int| 0 <= i < v.len() && v[i] == r; assert(w[i] == r); }
        if r == f { assert(w[v.len() as int] == r); }
    }
}

proof fn lemma_push_gives(v: Seq<RangeMapper>, f: RangeMapper, base: int, total: int, x: Segment)
    ensures some_gives(v.push(f), base, total, x) <==> some_gives(v, base, total, x) || gives(f, base, total, x)
{
    lemma_push_contains(v, f);
    if some_gives(v, base, total, x) { let r = choose|r: RangeMapper| #[trigger] v.contains(r) && gives(r, base, total, x); assert(v.push(f).contains(r)); }
    if gives(f, base, total, x) { assert(v.push(f).contains(f)); }
}
proof fn lemma_add_gives(a: Seq<RangeMapper>, b: Seq<RangeMapper>, base: int, total: int, x: Segment)
    ensures some_gives(a + b, base, total, x) <==> some_gives(a, base, total, x) || some_gives(b, base, total, x)
{
    let p = a + b;
    if some_gives(p, base, total, x) {
        let r = choose|r: RangeMapper| #[trigger] p.contains(r) && gives(r, base, total, x);
        let i = choose|i: int| 0 <= i < p.len() && p[i] == r;
        if i < a.len() { assert(a[i] == r); assert(a.contains(r)); } else { assert(b[i - a.len()] == r); assert(b.contains(r)); }
    }
    if some_gives(a, base, total, x) {
        let r = choose|r: RangeMapper| #[trigger] a.contains(r) && gives(r, base, total, x);
        let i = choose|i: int| 0 <= i < a.len() && a[i] == r;
        assert(p[i] == r); assert(p.contains(r));
    }
    if some_gives(b, base, total, x) {
        let r = choose|r: RangeMapper| #[trigger] b.contains(r) && gives(r, base, total, x);
        let i = choose|i: int| 0 <= i < b.len() && b[i] == r;
        assert(p[i + a.len()] == r); assert(p.contains(r));
    }
}
proof fn lemma_perm_gives(a: Seq<RangeMapper>, b: Seq<RangeMapper>, base: int, total: int, x: Segment)
    requires forall|r: RangeMapper| #![trigger a.contains(r)] #![trigger b.contains(r)] a.contains(r) <==> b.contains(r)
    ensures some_gives(a, base, total, x) == some_gives(b, base, total, x)
{
    if some_gives(a, base, total, x) { let r = choose|r: RangeMapper| #[trigger] a.contains(r) && gives(r, base, total, x); assert(b.contains(r)); }
    if some_gives(b, base, total, x) { let r = choose|r: RangeMapper| #[trigger] b.contains(r) && gives(r, base, total, x); assert(a.contains(r)); }
}
proof fn lemma_push_seg(v: Seq<Segment>, y: Segment, x: Segment)
    ensures v.push(y).contains(x) <==> v.contains(x) || x == y
{
    let w = v.push(y);
    if w.contains(x) { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; if i < v.len() { assert(v[i] == x); } }
    if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(w[i] == x); }
    if x == y { assert(w[v.len() as int] == x); }
}
proof fn lemma_key_order(v: Seq<RangeMapper>, f: RangeMapper)
    requires sorted(v.push(f))
    ensures forall|r: RangeMapper| #[trigger] v.contains(r) ==> key_le(f, r)
{
    let w = v.push(f);
    assert forall|r: RangeMapper| #[trigger] v.contains(r) implies key_le(f, r) by {
        let i = choose|i: int| 0 <= i < v.len() && v[i] == r;
        assert(w[i] == r && w[v.len() as int] == f);
        assert(key_le(w[v.len() as int], w[i]));
    }
}
proof fn lemma_deduped_strict(s: Seq<Segment>)
    requires strict(s)
    ensures deduped(s) =~= s
    decreases s.len()
{
    if s.len() > 1 {
        let p = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies seg_lt(#[trigger] p[i], #[trigger] p[j]) by { assert(seg_lt(s[i], s[j])); }
        lemma_deduped_strict(p);
        assert(seg_lt(s[s.len() - 2], s[s.len() - 1]));
        assert(s =~= p.push(s.last()));
    }
}
spec fn held(v: Seq<Segment>, f: Seq<RangeMapper>, t: Seq<RangeMapper>, base: int, total: int, x: Segment) -> bool {
    v.contains(x) || some_gives(f, base, total, x) || some_gives(t, base, total, x)
}
spec fn parted(f: Seq<RangeMapper>, t: Seq<RangeMapper>, rs: Seq<RangeMapper>) -> bool {
    forall|r: RangeMapper| #![trigger rs.contains(r)] #![trigger f.contains(r)] #![trigger t.contains(r)] rs.contains(r) <==> f.contains(r) || t.contains(r)
}

//@struct src/segment/range.rs Cutter

impl Cutter {
    spec fn wf(&self) -> bool {
        &&& all_left(self.filters@)
        &&& sorted(self.filters@)
        &&& self.tail_margin <= MAXOFF
        &&& forall|f: RangeMapper| #[trigger] self.tail_filters@.contains(f) ==> {
            &&& !f.left()
            &&& (f.start matches EndAnchored(x) ==> x <= self.tail_margin)
            &&& (f.end matches EndAnchored(x) ==> x <= self.tail_margin)
            &&& (f.start is StartAnchored ==> self.trans_offset <= at(f.start, 0))
        }
    }
    spec fn pending(&self) -> Seq<RangeMapper> { self.filters@ + self.tail_filters@ }
    spec fn empty(&self) -> bool { self.filters.len() == 0 && self.tail_filters.len() == 0 }
    spec fn plain(&self) -> bool { self.tail_margin == 0 && self.trans_offset == usize::MAX }

    proof fn lemma_pending(&self)
        ensures forall|r: RangeMapper| #![trigger self.pending().contains(r)] #![trigger self.filters@.contains(r)] #![trigger self.tail_filters@.contains(r)] self.pending().contains(r) <==> self.filters@.contains(r) || self.tail_filters@.contains(r)
    {
        let (f, t, p) = (self.filters@, self.tail_filters@, self.pending());
        assert forall|r: RangeMapper| #[trigger] p.contains(r) <==> f.contains(r) || t.contains(r) by {
            if p.contains(r) { let i = choose|i: int| 0 <= i < p.len() && p[i] == r; if i < f.len() { assert(f[i] == r); } else { assert(t[i - f.len()] == r); } }
            if f.contains(r) { let i = choose|i: int| 0 <= i < f.len() && f[i] == r; assert(p[i] == r); }
            if t.contains(r) { let i = choose|i: int| 0 <= i < t.len() && t[i] == r; assert(p[i + f.len()] == r); }
        }
    }

//@fn src/segment/range.rs Cutter::from_str
//@subst `!exprs.is_empty()` => `!empty_str(exprs)`
//@subst `let mut filters = Vec::new();` => `let mut filters: Vec<RangeMapper> = Vec::new();`
//@subst `let mut tail_filters = Vec::new();` => `let mut tail_filters: Vec<RangeMapper> = Vec::new();`
//@subst `for expr in exprs.strip_suffix(',').unwrap_or(exprs).split(',') {` => `let parts = split_exprs(exprs); for k in 0..parts.len() { let expr = parts[k];`
//@subst `RangeMapper::from_str(expr)?` => `parse_range(expr)?`
//@subst `filters.sort_by_key(|x| Reverse(x.sort_key()));` => `sort_by_key_desc(&mut filters);`
//@subst `tail_filters.iter().map(|x| x.trans_offset()).min().unwrap_or(usize::MAX)` => `min_trans_offset(&tail_filters)`
//@subst `tail_filters.iter().map(|x| x.tail_margin()).max().unwrap_or(0)` => `max_tail_margin(&tail_filters)`
//@spec
    ensures
        res matches Ok(c) ==> {
            &&& c.wf()
            &&& c.tail_filters.len() == 0 ==> c.plain()
            // the ranges of the expression, no more and no less
            &&& forall|r: RangeMapper| #[trigger] c.pending().contains(r) <==> ranges_of(exprs@).contains(r)
        }
//@beforeloop 1
            proof {
                assert(ranges_of(exprs@).take(0) =~= Seq::empty());
                assert forall|r: RangeMapper| !ranges_of(exprs@).take(0).contains(r) && !filters@.contains(r) && !tail_filters@.contains(r) by {}
            }
//@loop 1
            invariant
                parts.len() == pieces(exprs@).len(),
                exprs@.len() > 0,
                ranges_of(exprs@).len() == parts.len(),
                forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts@[i])@ == pieces(exprs@)[i],
                all_left(filters@),
                forall|i: int| #![trigger tail_filters@[i]] 0 <= i < tail_filters.len() ==> !tail_filters@[i].left()
                    && (tail_filters@[i].start matches EndAnchored(x) ==> x <= MAXOFF) && (tail_filters@[i].end matches EndAnchored(x) ==> x <= MAXOFF),
                parted(filters@, tail_filters@, ranges_of(exprs@).take(k as int)),
//@loopstart 1
            let ghost (f0, t0) = (filters@, tail_filters@);
            let ghost r0 = ranges_of(exprs@).take(k as int);
            proof {
                assert(ranges_of(exprs@).take(k + 1) =~= r0.push(ranges_of(exprs@)[k as int]));
                assert(ranges_of(exprs@)[k as int] == range_of(parts@[k as int]@));
            }
//@loopend 1
            proof {
                let m = range_of(parts@[k as int]@);
                assert(filters@ == f0.push(m) && tail_filters@ == t0 || filters@ == f0 && tail_filters@ == t0.push(m));
                lemma_push_contains(f0, m);
                lemma_push_contains(t0, m);
                lemma_push_contains(r0, m);
                let r1 = ranges_of(exprs@).take(k + 1);
                assert(r1 =~= r0.push(m));
                assert forall|r: RangeMapper| #![trigger r1.contains(r)] #![trigger filters@.contains(r)] #![trigger tail_filters@.contains(r)] r1.contains(r) <==> filters@.contains(r) || tail_filters@.contains(r) by {
                    assert(r0.push(m).contains(r) <==> r0.contains(r) || r == m);
                    assert(f0.push(m).contains(r) <==> f0.contains(r) || r == m);
                    assert(t0.push(m).contains(r) <==> t0.contains(r) || r == m);
                }
            }
//@before `sort_by_key_desc(`
        let ghost f1 = filters@;
        proof { if exprs@.len() > 0 { assert(ranges_of(exprs@).take(ranges_of(exprs@).len() as int) =~= ranges_of(exprs@)); } }
//@tail `Ok`
        proof {
            lemma_perm_contains(f1, filters@);
            assert(parted(f1, tail_filters@, ranges_of(exprs@)));
            if ret is Ok {
                let c = ret->Ok_0;
                c.lemma_pending();
                assert forall|r: RangeMapper| #[trigger] c.pending().contains(r) <==> ranges_of(exprs@).contains(r) by {}
                assert(c.wf()) by {
                    assert forall|f: RangeMapper| #[trigger] c.tail_filters@.contains(f) implies !f.left()
                        && (f.start matches EndAnchored(x) ==> x <= c.tail_margin) && (f.end matches EndAnchored(x) ==> x <= c.tail_margin)
                        && (f.start is StartAnchored ==> c.trans_offset <= at(f.start, 0)) by {
                        let i = choose|i: int| 0 <= i < c.tail_filters@.len() && c.tail_filters@[i] == f;
                        assert(!c.tail_filters@[i].left());
                    }
                }
            }
        }
//@end
//@fn src/segment/range.rs Cutter::is_empty
//@spec
    ensures res == self.empty()
//@subst `self.tail_filters.is_empty()` => `(self.tail_filters.len() == 0)`
//@subst `self.filters.is_empty()` => `(self.filters.len() == 0)`
//@end
    spec fn pend(&self, base: int, total: int, x: Segment) -> bool { some_gives(self.pending(), base, total, x) }
    spec fn holds(&self, v: Seq<Segment>, base: int, total: int, x: Segment) -> bool { v.contains(x) || self.pend(base, total, x) }

#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@fn src/segment/range.rs Cutter::accumulate
//@sig fn accumulate(&mut self, offset: usize, is_eof: bool, bytes: usize, v: &mut Vec<Segment>, Ghost(total): Ghost<int>) -> Result<usize>
//@subst `self.tail_filters.is_empty()` => `(self.tail_filters.len() == 0)`
//@subst `self.filters.sort_by_key(|x| Reverse(x.sort_key()));` => `sort_by_key_desc(&mut self.filters);`
//@subst `for filter in &self.tail_filters` => `for filter in it: &self.tail_filters`
//@subst `v.dedup();` => `dedup(v);`
//@spec
    requires
        old(self).wf(),
        offset + bytes <= total <= MAXLEN,
        is_eof ==> total == offset + bytes,
        strict(old(v)@),
        within(old(v)@, bytes as int),
        from(old(self).pending(), total, offset as int),
        before(old(v)@, old(self).pending(), offset as int, total),
    ensures
        res matches Ok(n) ==> {
            &&& final(self).wf()
            &&& final(self).tail_margin == old(self).tail_margin
            &&& final(self).trans_offset == old(self).trans_offset
            &&& !is_eof ==> final(self).tail_filters@ == old(self).tail_filters@
            &&& is_eof ==> final(self).tail_filters.len() == 0 && n == bytes
            &&& old(self).empty() ==> final(self).empty() && final(v)@ == old(v)@
            &&& !is_eof && n > 0 ==> n + old(self).tail_margin <= bytes && offset + n <= old(self).trans_offset
            &&& n <= bytes
            &&& forall|m: int| m + old(self).tail_margin <= bytes && offset + m <= old(self).trans_offset && #[trigger] from(old(self).pending(), total, offset + m) ==> m <= n
            // what is found and what is pending together stay what they are
            &&& forall|x: Segment| #[trigger] final(self).holds(final(v)@, offset as int, total, x) <==> old(self).holds(old(v)@, offset as int, total, x)
            &&& strict(final(v)@)
            &&& within(final(v)@, bytes as int)
            &&& final(v).len() >= old(v).len()
            &&& from(final(self).pending(), total, offset + n)
            &&& before(final(v)@, final(self).pending(), offset as int, total)
        }
//@entry
        let ghost v0 = v@;
        let ghost s0 = *self;
        let ghost base = offset as int;
        proof { s0.lemma_pending(); }
//@loop 1
            invariant
                self.tail_filters@ == s0.tail_filters@,
                self.trans_offset == s0.trans_offset,
                self.tail_margin == s0.tail_margin,
                all_left(self.filters@),
                from(self.filters@, total, base),
                before(v0, self.filters@, base, total),
                forall|x: Segment| #![trigger some_gives(self.filters@, base, total, x)]
                    some_gives(self.filters@, base, total, x) <==> some_gives(s0.filters@, base, total, x) || some_gives(s0.tail_filters@.subrange(0, it.index@), base, total, x),
//@loopstart 1
                let ghost f0 = self.filters@;
//@loopend 1
                proof {
                    let t = s0.tail_filters@;
                    assert(t[it.index@] == *filter);
                    assert(t.contains(*filter));
                    assert(s0.pending().contains(*filter));
                    let l = self.filters@.last();
                    assert(self.filters@ =~= f0.push(l));
                    lemma_push_contains(f0, l);
                    assert(t.subrange(0, it.index@ + 1) =~= t.subrange(0, it.index@).push(*filter));
                    assert forall|x: Segment| #![trigger some_gives(self.filters@, base, total, x)]
                        some_gives(self.filters@, base, total, x) <==> some_gives(s0.filters@, base, total, x) || some_gives(t.subrange(0, it.index@ + 1), base, total, x) by {
                        lemma_push_gives(f0, l, base, total, x);
                        lemma_push_gives(t.subrange(0, it.index@), *filter, base, total, x);
                        assert(some_gives(f0, base, total, x) <==> some_gives(s0.filters@, base, total, x) || some_gives(t.subrange(0, it.index@), base, total, x));
                    }
                }
//@before `sort_by_key_desc(`
            let ghost f1 = self.filters@;
            proof { assert(s0.tail_filters@.subrange(0, s0.tail_filters.len() as int) =~= s0.tail_filters@); }
//@after `sort_by_key_desc(&mut self.filters);`
            proof {
                lemma_perm_contains(f1, self.filters@);
                assert forall|x: Segment| #[trigger] self.pend(base, total, x) <==> s0.pend(base, total, x) by {
                    lemma_add_gives(s0.filters@, s0.tail_filters@, base, total, x);
                    lemma_add_gives(self.filters@, self.tail_filters@, base, total, x);
                    lemma_perm_gives(f1, self.filters@, base, total, x);
                    assert(some_gives(f1, base, total, x) <==> some_gives(s0.filters@, base, total, x) || some_gives(s0.tail_filters@, base, total, x));
                }
            }
//@before `let mut max_consume`
        let ghost s1 = *self;
        let ghost mc = max_consume as int;
        proof {
            s1.lemma_pending();
            assert(s1.wf());
            assert(from(s1.filters@, total, base));
            assert(from(s1.tail_filters@, total, base + mc)) by {
                assert forall|r: RangeMapper| #[trigger] s1.tail_filters@.contains(r) implies r.lo(total) >= base + mc by {
                    assert(s0.pending().contains(r));
                    assert(!r.left());
                }
            }
            assert(before(v0, s1.filters@, base, total));
            assert(before(v0, s1.tail_filters@, base, total));
            assert forall|x: Segment| #[trigger] held(v@, s1.filters@, s1.tail_filters@, base, total, x) <==> s0.holds(v0, base, total, x) by {
                assert(s1.pend(base, total, x) <==> s0.pend(base, total, x));
                lemma_add_gives(s1.filters@, s1.tail_filters@, base, total, x);
            }
            assert(v@.take(v0.len() as int) =~= v0);
        }
//@beforeloop 2
        let ghost mut gf = self.filters@;
//@loop 2
            invariant_except_break
                gf == self.filters@,
                max_consume == mc,
            invariant
                self.wf(),
                self.tail_filters@ == s1.tail_filters@,
                self.tail_margin == s1.tail_margin,
                self.trans_offset == s1.trans_offset,
                s0.empty() ==> self.filters.len() == 0 && v@ == v0,
                forall|r: RangeMapper| #[trigger] self.filters@.contains(r) ==> s1.filters@.contains(r),
                weak(v@),
                within(v@, bytes as int),
                v.len() >= v0.len(),
                v@.take(v0.len() as int) =~= v0,
                before(v@, self.filters@, base, total),
                before(v@, self.tail_filters@, base, total),
                max_consume <= mc,
                forall|x: Segment| #[trigger] held(v@, self.filters@, self.tail_filters@, base, total, x) <==> s0.holds(v0, base, total, x),
            ensures
                from(self.filters@, total, base + max_consume),
                is_eof ==> max_consume == bytes,
                forall|m: int| m + s0.tail_margin <= bytes && base + m <= s0.trans_offset && #[trigger] from(s0.pending(), total, base + m) ==> m <= max_consume,
            decreases self.filters.len()
//@loopstart 2
            let ghost f2 = self.filters@.push(filter);
            proof {
                assert(f2 =~= gf);
                gf = self.filters@;
                assert(f2[f2.len() - 1].left());
                assert(f2[f2.len() - 1] == filter);
                assert(f2.contains(filter));
                lemma_push_contains(self.filters@, filter);
                lemma_key_order(self.filters@, filter);
                assert forall|x: Segment| #![trigger some_gives(self.filters@, base, total, x)]
                    held(v@, f2, self.tail_filters@, base, total, x) <==> held(v@, self.filters@, self.tail_filters@, base, total, x) || gives(filter, base, total, x) by {
                    lemma_push_gives(self.filters@, filter, base, total, x);
                }
                assert(filter.lo(total) >= base) by { assert(s1.filters@.contains(filter)); }
            }
//@before `if start >= max_consume`
            let ghost w0 = v@;
//@before `if start >= end`
            proof {
                assert(has_slice(filter, total) <==> start < end);
                if start >= end {
                    assert forall|x: Segment| #[trigger] held(v@, self.filters@, self.tail_filters@, base, total, x) <==> s0.holds(v0, base, total, x) by {
                        assert(held(v@, f2, self.tail_filters@, base, total, x) <==> s0.holds(v0, base, total, x));
                        assert(!gives(filter, base, total, x));
                    }
                }
            }
//@loopend 2
            proof {
                let x0 = slice_of(filter, base, total);
                assert(v@ =~= w0.push(x0));
                assert(f2.contains(filter));
                assert forall|x: Segment| #[trigger] held(v@, self.filters@, self.tail_filters@, base, total, x) <==> s0.holds(v0, base, total, x) by {
                    assert(held(w0, f2, self.tail_filters@, base, total, x) <==> s0.holds(v0, base, total, x));
                    lemma_gives(filter, base, total, x);
                    lemma_push_gives(self.filters@, filter, base, total, x);
                    lemma_push_seg(w0, x0, x);
                }
                assert forall|r: RangeMapper, i: int| #[trigger] self.filters@.contains(r) && has_slice(r, total) && 0 <= i < v@.len() implies seg_le(#[trigger] v@[i], slice_of(r, base, total)) by {
                    assert(key_le(filter, r));
                    assert(f2.contains(r));
                    assert(s1.filters@.contains(r));
                    if i < w0.len() { assert(seg_le(w0[i], slice_of(r, base, total))); }
                }
                assert forall|r: RangeMapper, i: int| #[trigger] self.tail_filters@.contains(r) && has_slice(r, total) && 0 <= i < v@.len() implies seg_le(#[trigger] v@[i], slice_of(r, base, total)) by {
                    if i < w0.len() { assert(seg_le(w0[i], slice_of(r, base, total))); }
                }
            }
//@before `self.filters.push(filter);`
                let ghost f3 = self.filters@;
//@after `self.filters.push(filter);`
                proof {
                    assert(self.filters@ =~= f2);
                    assert forall|r: RangeMapper| #[trigger] self.filters@.contains(r) implies r.lo(total) >= base + max_consume by {
                        if r != filter { assert(f3.contains(r)); assert(key_le(filter, r)); assert(s1.filters@.contains(r)); }
                    }
                }
//@before `dedup(v);`
        let ghost w = v@;
//@after `dedup(v);`
        proof {
            lemma_deduped(w, v0.len() as int);
            self.lemma_pending();
            if s0.empty() { lemma_deduped_strict(w); }
            assert forall|x: Segment| #[trigger] self.holds(v@, base, total, x) <==> s0.holds(v0, base, total, x) by {
                assert(held(w, self.filters@, self.tail_filters@, base, total, x) <==> s0.holds(v0, base, total, x));
                lemma_add_gives(self.filters@, self.tail_filters@, base, total, x);
            }
            assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w.contains(v@[i]) by { assert(deduped(w).contains(v@[i])); }
            assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).end() <= bytes by {
                assert(w.contains(v@[i]));
                let j = choose|j: int| 0 <= j < w.len() && w[j] == v@[i];
                assert(w[j].end() <= bytes);
            }
            assert forall|r: RangeMapper, i: int| #[trigger] self.pending().contains(r) && has_slice(r, total) && 0 <= i < v@.len() implies seg_le(#[trigger] v@[i], slice_of(r, base, total)) by {
                assert(w.contains(v@[i]));
                let j = choose|j: int| 0 <= j < w.len() && w[j] == v@[i];
                if self.filters@.contains(r) { assert(seg_le(w[j], slice_of(r, base, total))); } else { assert(self.tail_filters@.contains(r)); assert(seg_le(w[j], slice_of(r, base, total))); }
            }
        }
//@end
}

//@struct src/segment/range.rs RangeSlicer

impl RangeSlicer {
    spec fn total(&self) -> int { self.src_consumed + self.src.rest().len() }
    // the stream ends early when no range is pending
    spec fn early(&self) -> bool { self.cutter.empty() && !self.full_scan }
    spec fn stop(&self) -> int { if self.furthest >= self.max_consume { self.furthest as int } else { self.max_consume as int } }
    spec fn all(&self) -> Seq<Segment> { onto(self.segments@, self.cutter.pending(), self.src_consumed as int, self.total()) }
    spec fn holds(&self, x: Segment) -> bool { self.cutter.holds(self.segments@, self.src_consumed as int, self.total(), x) }

    proof fn lemma_all(&self)
        requires self.wf()
        ensures
            strict(self.all()),
            inorder(self.all()),
            self.all().len() >= self.segments.len(),
            self.all().take(self.segments.len() as int) =~= self.segments@,
            forall|x: Segment| #[trigger] self.all().contains(x) <==> self.holds(x),
            within(self.all(), self.rest().len() as int),
            forall|i: int| self.segments.len() <= i < self.all().len() ==> (#[trigger] self.all()[i]).pos >= self.max_consume,
    {
        let (b, t, p) = (self.src_consumed as int, self.total(), self.cutter.pending());
        lemma_onto(self.segments@, p, b, t);
        let a = self.all();
        assert forall|i: int, j: int| 0 <= i <= j < a.len() implies (#[trigger] a[i]).pos <= (#[trigger] a[j]).pos by { if i < j { assert(seg_lt(a[i], a[j])); } }
        if self.cutter.empty() { assert(p =~= Seq::empty()); }
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).end() <= self.rest().len() by {
            assert(a.contains(a[i]));
            if self.segments@.contains(a[i]) { let j = choose|j: int| 0 <= j < self.segments.len() && self.segments@[j] == a[i]; assert(self.segments@[j].end() <= self.furthest); }
            else { assert(some_gives(p, b, t, a[i])); }
        }
        assert forall|i: int| self.segments.len() <= i < a.len() implies (#[trigger] a[i]).pos >= self.max_consume by {
            assert(a.contains(a[i]));
            if self.segments@.contains(a[i]) {
                let j = choose|j: int| 0 <= j < self.segments.len() && self.segments@[j] == a[i];
                assert(a.take(self.segments.len() as int)[j] == a[j]);
                assert(seg_lt(a[j], a[i]));
            } else {
                assert(some_gives(p, b, t, a[i]));
                let r = choose|r: RangeMapper| #[trigger] p.contains(r) && gives(r, b, t, a[i]);
                assert(r.lo(t) >= b + self.max_consume);
            }
        }
    }

//@fn src/segment/range.rs RangeSlicer::new
//@spec
    requires sok(src)
    ensures
        res matches Ok(s) ==> {
            &&& s.wf()
            &&& s.src == src
            &&& s.full_scan == false
            &&& s.known() == 0 && s.limit() == 0
            // the ranges of the expression clipped at the end of the stream, in the order of their positions and lengths, each once
            &&& strict(s.segs())
            &&& forall|x: Segment| #[trigger] s.segs().contains(x) <==> some_gives(ranges_of(exprs@), 0, src.rest().len() as int, x)
        }
//@tail `Ok`
        proof {
            if ret is Ok {
                let s = ret->Ok_0;
                s.lemma_all();
                let t = src.rest().len() as int;
                assert forall|x: Segment| #[trigger] s.segs().contains(x) <==> some_gives(ranges_of(exprs@), 0, t, x) by { lemma_perm_gives(s.cutter.pending(), ranges_of(exprs@), 0, t, x); assert(s.all().contains(x) <==> s.holds(x)); }
            }
        }
//@end
}

impl SegmentStream for RangeSlicer {
    spec fn wf(&self) -> bool {
        let (b, t) = (self.src_consumed as int, self.total());
        &&& sok(self.src)
        &&& t <= MAXLEN
        &&& self.cutter.wf()
        &&& strict(self.segments@)
        &&& from(self.cutter.pending(), t, b + self.max_consume)
        &&& before(self.segments@, self.cutter.pending(), b, t)
        &&& within(self.segments@, self.furthest as int)
        &&& self.furthest <= self.src.avail()
        &&& self.max_consume <= self.src.avail()
        &&& !self.src.ended() && self.max_consume > 0 ==> self.max_consume + self.cutter.tail_margin <= self.src.avail() && b + self.max_consume <= self.cutter.trans_offset
        &&& self.cutter.tail_filters.len() == 0 ==> self.cutter.plain() || self.src.ended()
    }
    spec fn rest(&self) -> Seq<u8> { if self.early() { self.src.rest().take(self.stop()) } else { self.src.rest() } }
    spec fn segs(&self) -> Seq<Segment> { self.all() }
    spec fn avail(&self) -> int { if self.early() { self.stop() } else { self.src.avail() } }
    spec fn known(&self) -> int { self.segments.len() as int }
    spec fn limit(&self) -> int { self.max_consume as int }
    spec fn reach(&self) -> int { self.furthest as int }
    spec fn filled(&self) -> bool { self.src.filled() }
    spec fn full(&self) -> bool { self.full_scan }
    spec fn ended(&self) -> bool { self.early() || self.src.ended() }
    spec fn keeps(&self) -> bool { true }

//@fn src/segment/range.rs SegmentStream for RangeSlicer::fill_segment_buf
//@subst `self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)` => `self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments, Ghost(total))`
//@subst `self.segments.iter().map(|x| x.tail()).fold(self.furthest, std::cmp::max)` => `furthest_tail(&self.segments, self.furthest)`
//@spec
//@entry
        let ghost s0 = *self;
        let ghost total = self.total();
//@before `let max_consume`
        let ghost s1 = *self;
        proof {
            s0.lemma_all();
            assert forall|r: RangeMapper| #[trigger] self.cutter.pending().contains(r) implies r.lo(total) >= self.src_consumed by {}
        }
//@before `self.furthest =`
        proof {
            if !is_eof && s0.max_consume > 0 {
                assert(!s0.src.ended());
                let m = s0.max_consume as int;
                assert(from(s0.cutter.pending(), total, s0.src_consumed + m));
                assert(m <= max_consume);
            }
            assert(s0.max_consume <= max_consume);
        }
//@tail `Ok`
        proof {
            self.lemma_all();
            assert forall|x: Segment| #![trigger self.all().contains(x)] #![trigger s0.all().contains(x)] self.all().contains(x) <==> s0.all().contains(x) by {
                assert(self.all().contains(x) <==> self.holds(x));
                assert(s0.all().contains(x) <==> s0.holds(x));
            }
            lemma_strict_unique(self.all(), s0.all());
            assert(self.segs() == s0.segs());
            if ret->Ok_0.0 {
                assert forall|x: Segment| #![trigger self.all().contains(x)] #![trigger self.segments@.contains(x)] self.all().contains(x) <==> self.segments@.contains(x) by {
                    assert(self.all().contains(x) <==> self.holds(x));
                    assert(!some_gives(self.cutter.pending(), self.src_consumed as int, total, x));
                }
                lemma_strict_unique(self.all(), self.segments@);
            }
        }
//@end
//@fn src/segment/range.rs SegmentStream for RangeSlicer::as_slices
//@spec
//@entry
        proof { self.lemma_all(); }
//@end
//@fn src/segment/range.rs SegmentStream for RangeSlicer::consume
//@spec
//@entry
        let ghost s0 = *self;
        let ghost total = self.total();
        let ghost base = self.src_consumed as int;
        let ghost pend = self.cutter.pending();
        let ghost a0 = self.all();
        proof {
            self.lemma_all();
            assert forall|i: int, j: int| 0 <= i <= j < s0.segments@.len() implies (#[trigger] s0.segments@[i]).pos <= (#[trigger] s0.segments@[j]).pos by { if i < j { assert(seg_lt(s0.segments@[i], s0.segments@[j])); } }
        }
//@beforeloop 1
        let ghost s1 = *self;
        proof {
            lemma_below_is(s0.segments@, bytes as int, from as int);
            assert(s1.segments@ =~= s0.segments@.skip(from as int));
        }
//@loop 1
    invariant
        self.src == s1.src, self.src_consumed == s1.src_consumed, self.max_consume == s1.max_consume, self.furthest == s1.furthest,
        self.full_scan == s1.full_scan, self.cutter == s1.cutter,
        self.segments.len() == s1.segments.len(), it.iter.end == s1.segments.len(),
        forall|i: int| 0 <= i < s1.segments.len() ==> (#[trigger] s1.segments@[i]).pos >= bytes,
        forall|i: int| 0 <= i < self.segments.len() ==> #[trigger] self.segments@[i] == (Segment { pos: (s1.segments@[i].pos - (if i < ix { bytes as int } else { 0 })) as usize, len: s1.segments@[i].len }),
//@afterloop 1
        let ghost b = bytes as int;
        proof {
            assert(self.segments@ =~= advance(s0.segments@, b));
            assert(self.segments@ == advance(s0.segments@, b));
            lemma_onto_advance(s0.segments@, pend, base, total, b, s0.max_consume as int);
        }
//@tail `Ok`
        proof {
            assert(self.total() == total);
            assert forall|i: int| 0 <= i < self.segments@.len() implies (#[trigger] self.segments@[i]).end() <= self.furthest by { assert(s0.segments@[i + from].end() <= s0.furthest); }
            assert(self.wf());
            self.lemma_all();
        }
//@end
}
