// str::split: the parts between the occurrences of d, from the left
spec fn at_head(s: Seq<char>, d: Seq<char>) -> bool { s.len() >= d.len() && s.take(d.len() as int) == d }
spec fn parts_of(s: Seq<char>, d: Seq<char>, part: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 || d.len() == 0 { seq![part] }
    else if at_head(s, d) { seq![part] + parts_of(s.skip(d.len() as int), d, Seq::empty()) }
    else { parts_of(s.skip(1), d, part.push(s[0])) }
}
spec fn split(s: Seq<char>, d: Seq<char>) -> Seq<Seq<char>> { parts_of(s, d, Seq::empty()) }
#[verifier::external_body]
fn split_text<'a>(s: &'a str, d: &str) -> (res: Vec<&'a str>)
    requires d@.len() > 0
    ensures res.len() == split(s@, d@).len(), forall|i: int| 0 <= i < res.len() ==> (#[trigger] res@[i])@ == split(s@, d@)[i]
{ s.split(d).collect() }
proof fn lemma_parts(s: Seq<char>, d: Seq<char>, part: Seq<char>)
    ensures parts_of(s, d, part).len() > 0
    decreases s.len()
{ if s.len() > 0 && d.len() > 0 && !at_head(s, d) { lemma_parts(s.skip(1), d, part.push(s[0])); } }
