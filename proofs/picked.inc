// the bytes of `s` (which starts at absolute position `base`) at the positions that are kept, in order
spec fn picked<T>(s: Seq<T>, base: int, keep: spec_fn(int) -> bool) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { picked(s.drop_last(), base, keep) + (if keep(base + s.len() - 1) { seq![s.last()] } else { Seq::empty() }) }
}

proof fn lemma_picked_add<T>(a: Seq<T>, b: Seq<T>, base: int, keep: spec_fn(int) -> bool)
    ensures picked(a + b, base, keep) =~= picked(a, base, keep) + picked(b, base + a.len(), keep)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_picked_add(a, b.drop_last(), base, keep);
    }
}

proof fn lemma_picked_ext<T>(s: Seq<T>, base: int, k1: spec_fn(int) -> bool, k2: spec_fn(int) -> bool)
    requires forall|p: int| base <= p < base + s.len() ==> (#[trigger] k1(p)) == k2(p)
    ensures picked(s, base, k1) == picked(s, base, k2)
    decreases s.len()
{
    if s.len() > 0 { lemma_picked_ext(s.drop_last(), base, k1, k2); }
}

proof fn lemma_picked_all<T>(s: Seq<T>, base: int, keep: spec_fn(int) -> bool)
    requires forall|p: int| base <= p < base + s.len() ==> #[trigger] keep(p)
    ensures picked(s, base, keep) =~= s
    decreases s.len()
{
    if s.len() > 0 { lemma_picked_all(s.drop_last(), base, keep); }
}

proof fn lemma_picked_none<T>(s: Seq<T>, base: int, keep: spec_fn(int) -> bool)
    requires forall|p: int| base <= p < base + s.len() ==> !#[trigger] keep(p)
    ensures picked(s, base, keep) =~= Seq::<T>::empty()
    decreases s.len()
{
    if s.len() > 0 { lemma_picked_none(s.drop_last(), base, keep); }
}

// a piece [a, b) of s that is skipped up to x and then kept
proof fn lemma_picked_step<T>(s: Seq<T>, base: int, keep: spec_fn(int) -> bool, a: int, x: int, b: int)
    requires
        0 <= a <= x <= b <= s.len(),
        forall|p: int| base + a <= p < base + x ==> !#[trigger] keep(p),
        forall|p: int| base + x <= p < base + b ==> #[trigger] keep(p),
    ensures
        picked(s.subrange(0, b), base, keep) =~= picked(s.subrange(0, a), base, keep) + s.subrange(x, b)
{
    let s0 = s.subrange(0, a);
    let s1 = s.subrange(a, x);
    let s2 = s.subrange(x, b);
    assert(s.subrange(0, b) =~= s0 + (s1 + s2));
    lemma_picked_add(s0, s1 + s2, base, keep);
    lemma_picked_add(s1, s2, base + a, keep);
    lemma_picked_none(s1, base + a, keep);
    lemma_picked_all(s2, base + x, keep);
}

proof fn lemma_picked_len<T>(s: Seq<T>, base: int, keep: spec_fn(int) -> bool)
    ensures picked(s, base, keep).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_picked_len(s.drop_last(), base, keep); }
}

