//@include exprs.inc
// ---- S..E[,S..E ...]
// what RangeMapper::from_str makes of a text: verified in mapstr; here only that it is the same for the same text
uninterp spec fn range_of(s: Seq<char>) -> RangeMapper;
#[verifier::external_body]
fn parse_range(s: &str) -> (res: Result<RangeMapper>)
    ensures res matches Ok(m) ==> m == range_of(s@) && (m.start matches EndAnchored(x) ==> x <= MAXOFF) && (m.end matches EndAnchored(x) ==> x <= MAXOFF)
{ unimplemented!() }
spec fn ranges_of(s: Seq<char>) -> Seq<RangeMapper> { if s.len() == 0 { Seq::empty() } else { Seq::new(pieces(s).len(), |i: int| range_of(pieces(s)[i])) } }

// std: v.iter().map(|x| x.trans_offset()).min().unwrap_or(usize::MAX)
fn min_trans_offset(v: &Vec<RangeMapper>) -> (res: usize)
    ensures
        v.len() == 0 ==> res == usize::MAX,
        forall|i: int| 0 <= i < v.len() && (#[trigger] v@[i]).start is StartAnchored && v@[i].end is EndAnchored ==> res <= at(v@[i].start, 0),
{
    let mut m = usize::MAX;
    for i in 0..v.len()
        invariant
            forall|j: int| 0 <= j < i && (#[trigger] v@[j]).start is StartAnchored && v@[j].end is EndAnchored ==> m <= at(v@[j].start, 0),
            i == 0 ==> m == usize::MAX,
    { m = min_usize(m, v[i].trans_offset()); }
    m
}
// std: v.iter().map(|x| x.tail_margin()).max().unwrap_or(0)
fn max_tail_margin(v: &Vec<RangeMapper>) -> (res: usize)
    requires
        forall|i: int| #![trigger v@[i]] 0 <= i < v.len() ==> (v@[i].start matches EndAnchored(x) ==> x <= MAXOFF) && (v@[i].end matches EndAnchored(x) ==> x <= MAXOFF),
    ensures
        v.len() == 0 ==> res == 0,
        res <= MAXOFF,
        forall|i: int| #![trigger v@[i]] 0 <= i < v.len() ==> (v@[i].start matches EndAnchored(x) ==> x <= res) && (v@[i].end matches EndAnchored(x) ==> x <= res),
{
    let mut m = 0;
    for i in 0..v.len()
        invariant
            forall|i: int| #![trigger v@[i]] 0 <= i < v.len() ==> (v@[i].start matches EndAnchored(x) ==> x <= MAXOFF) && (v@[i].end matches EndAnchored(x) ==> x <= MAXOFF),
            m <= MAXOFF, i == 0 ==> m == 0,
            forall|j: int| #![trigger v@[j]] 0 <= j < i ==> (v@[j].start matches EndAnchored(x) ==> x <= m) && (v@[j].end matches EndAnchored(x) ==> x <= m),
    { m = max_usize(m, v[i].tail_margin()); }
    m
}
proof fn lemma_any_empty(total: int, p: int)
    ensures !any_covers(Seq::empty(), total, p)
{
}
