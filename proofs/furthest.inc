// std: v.iter().map(|x| x.tail()).fold(init, max)
fn furthest_tail(v: &Vec<Segment>, init: usize) -> (res: usize)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v@[i]).end() <= usize::MAX
    ensures res >= init, within(v@, res as int), res == init || exists|i: int| 0 <= i < v.len() && (#[trigger] v@[i]).end() == res
{
    let mut m = init;
    for i in 0..v.len()
        invariant
            forall|i: int| 0 <= i < v.len() ==> (#[trigger] v@[i]).end() <= usize::MAX,
            m >= init, within(v@.take(i as int), m as int), m == init || exists|j: int| 0 <= j < i && (#[trigger] v@[j]).end() == m,
    {
        let ghost m0 = m;
        m = max_usize(m, v[i].tail());
        proof {
            assert forall|j: int| 0 <= j < v@.take(i + 1).len() implies (#[trigger] v@.take(i + 1)[j]).end() <= m by {
                if j < i { assert(v@.take(i as int)[j].end() <= m0); }
            }
            if m != m0 { assert(v@[i as int].end() == m); }
        }
    }
    proof { assert(v@.take(v.len() as int) =~= v@); }
    m
}
