// ---- lists of expressions
//@include split.inc
// str: is_empty, trim, strip_suffix, split
#[verifier::opaque]
spec fn pieces(s: Seq<char>) -> Seq<Seq<char>> { split(if s.len() > 0 && s.last() == ',' { s.drop_last() } else { s }, seq![',']) }
#[verifier::external_body]
fn empty_str(s: &str) -> (res: bool) ensures res == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn blank_str(s: &str) -> (res: bool) { s.trim().is_empty() }
#[verifier::external_body]
fn split_exprs(s: &str) -> (v: Vec<&str>)
    ensures v.len() > 0, v.len() == pieces(s@).len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v@[i])@ == pieces(s@)[i]
{ s.strip_suffix(',').unwrap_or(s).split(',').collect() }
