//@struct src/segment/mod.rs Segment
impl Clone for Segment { fn clone(&self) -> (res: Self) ensures res == *self { Segment { pos: self.pos, len: self.len } } }
impl Copy for Segment {}

impl Segment {
    spec fn end(&self) -> int { self.pos + self.len }
//@fn src/segment/mod.rs Segment::tail
//@spec
    requires self.end() <= usize::MAX
    ensures res == self.end()
//@end
//@fn src/segment/mod.rs Segment::as_range
//@spec
    requires self.end() <= usize::MAX
    ensures res.start == self.pos, res.end == self.end()
//@end
}
