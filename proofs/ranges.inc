// lexicographic order of the sort keys of left-anchored ranges
spec fn key_le(a: RangeMapper, b: RangeMapper) -> bool {
    a.lo(0) < b.lo(0) || a.lo(0) == b.lo(0) && a.hi(0) <= b.hi(0)
}

// largest first: the next range is popped from the end
spec fn sorted(v: Seq<RangeMapper>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> key_le(v[j], v[i])
}

spec fn all_left(v: Seq<RangeMapper>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].left() }

spec fn any_covers(v: Seq<RangeMapper>, total: int, p: int) -> bool {
    exists|i: int| 0 <= i < v.len() && #[trigger] v[i].covers(total, p)
}

// std: sort_by_key(|x| Reverse(x.sort_key())) permutes the vector into descending order of the keys
#[verifier::external_body]
fn sort_by_key_desc(v: &mut Vec<RangeMapper>)
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        all_left(old(v)@) ==> all_left(final(v)@) && sorted(final(v)@),
{ v.sort_by_key(|x| core::cmp::Reverse(x.sort_key())); }

proof fn lemma_perm_covers(a: Seq<RangeMapper>, b: Seq<RangeMapper>, total: int, p: int)
    requires a.to_multiset() == b.to_multiset()
    ensures any_covers(a, total, p) == any_covers(b, total, p)
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    if any_covers(a, total, p) {
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].covers(total, p);
        assert(b.to_multiset().count(a[i]) > 0);
        assert(b.contains(a[i]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(b[j].covers(total, p));
    }
    if any_covers(b, total, p) {
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].covers(total, p);
        assert(a.to_multiset().count(b[i]) > 0);
        assert(a.contains(b[i]));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
        assert(a[j].covers(total, p));
    }
}

proof fn lemma_push_covers(v: Seq<RangeMapper>, f: RangeMapper, total: int, p: int)
    ensures any_covers(v.push(f), total, p) == (any_covers(v, total, p) || f.covers(total, p))
{
    if any_covers(v, total, p) {
        let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i].covers(total, p);
        assert(v.push(f)[i].covers(total, p));
    }
    if f.covers(total, p) { assert(v.push(f)[v.len() as int].covers(total, p)); }
}

spec fn split_into(f: Seq<RangeMapper>, t: Seq<RangeMapper>, r: Seq<RangeMapper>) -> bool {
    forall|total: int, p: int| #[trigger] any_covers(r, total, p) == (any_covers(f, total, p) || any_covers(t, total, p))
}
