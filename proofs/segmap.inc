// ---- expressions that map the start and the end of a slice
#[derive(Clone, Copy)]
//@struct src/mapper.rs SegmentMapperAnchor
#[derive(Clone, Copy)]
//@struct src/mapper.rs SegmentMapper

impl SegmentMapperAnchor {
    spec fn wf(&self) -> bool { self.anchor < 2 && -MAXOFF <= self.offset <= MAXOFF }
    // the named end of the slice [s, e), moved by the offset
    spec fn at(&self, s: int, e: int) -> int { (if self.anchor == 0 { s } else { e }) + self.offset }
//@fn src/mapper.rs SegmentMapperAnchor::evaluate
//@spec
    requires self.wf(), -MAXOFF <= input@[0] <= MAXOFF, -MAXOFF <= input@[1] <= MAXOFF
    ensures res == self.at(input@[0] as int, input@[1] as int)
//@end
}
impl SegmentMapper {
    spec fn wf(&self) -> bool { self.start.wf() && self.end.wf() }
//@fn src/mapper.rs SegmentMapper::evaluate
//@spec
    requires
        self.wf(),
        -MAXOFF <= start@[0] <= MAXOFF, -MAXOFF <= start@[1] <= MAXOFF,
        -MAXOFF <= end@[0] <= MAXOFF, -MAXOFF <= end@[1] <= MAXOFF,
    ensures
        res.0 == self.start.at(start@[0] as int, start@[1] as int),
        res.1 == self.end.at(end@[0] as int, end@[1] as int),
//@end
}
spec fn maps_ok(ms: Seq<SegmentMapper>) -> bool { ms.len() > 0 && forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).wf() }

// what SegmentMapper::from_str makes of a text: verified in mapstr; here only that it is the same for the same text
uninterp spec fn mapper_of(text: Seq<char>) -> SegmentMapper;
#[verifier::external_body]
fn parse_mapper(s: &str) -> (res: Result<SegmentMapper>)
    ensures res matches Ok(m) ==> m == mapper_of(s@) && m.wf()
{ unimplemented!() }
// one mapper for each piece
spec fn mappers_of(text: Seq<char>) -> Seq<SegmentMapper> { Seq::new(pieces(text).len(), |i: int| mapper_of(pieces(text)[i])) }

spec fn zero_or(x: int) -> int { if x >= 0 { x } else { 0 } }
// the slice from s to e, if it is not empty; nothing is left of 0
spec fn between(s: int, e: int) -> Seq<Segment> {
    if zero_or(s) < zero_or(e) { seq![Segment { pos: zero_or(s) as usize, len: (zero_or(e) - zero_or(s)) as usize }] } else { Seq::empty() }
}
pub fn max_isize(a: isize, b: isize) -> (res: isize)
    ensures res == (if a >= b { a } else { b })
{ if a >= b { a } else { b } }
pub fn min_isize(a: isize, b: isize) -> (res: isize)
    ensures res == (if a <= b { a } else { b })
{ if a <= b { a } else { b } }
