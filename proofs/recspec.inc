// the arrays of the records, one after another
spec fn bodies(recs: Seq<Rec>) -> Seq<u8>
    decreases recs.len()
{
    if recs.len() == 0 { Seq::empty() } else { recs[0].body + bodies(recs.skip(1)) }
}

// the stream from the absolute position `base` on: the gap before each record is filled with the filler
spec fn placed(base: int, recs: Seq<Rec>, filler: u8) -> Seq<u8>
    decreases recs.len()
{
    if recs.len() == 0 { Seq::empty() }
    else { fill_seq(recs[0].off - base, filler) + recs[0].body + placed((recs[0].off + recs[0].span) as int, recs.skip(1), filler) }
}
