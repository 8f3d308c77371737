
#[derive(Clone, Copy)]
//@struct src/mapper.rs RangeMapperAnchor
#[derive(Clone, Copy)]
//@struct src/mapper.rs RangeMapper
use RangeMapperAnchor::*;

// the position an anchor denotes in a stream of `total` bytes
spec fn at(a: RangeMapperAnchor, total: int) -> int {
    match a {
        StartAnchored(x) => x as int,
        EndAnchored(x) => if total >= x { total - x } else { 0 },
    }
}

impl RangeMapper {
    spec fn lo(&self, total: int) -> int { at(self.start, total) }
    spec fn hi(&self, total: int) -> int { at(self.end, total) }
    // byte p of a stream of `total` bytes is in the range
    spec fn covers(&self, total: int, p: int) -> bool { self.lo(total) <= p < self.hi(total) }
    spec fn left(&self) -> bool { self.start is StartAnchored && self.end is StartAnchored }

//@fn src/mapper.rs RangeMapper::trans_offset
//@spec
    ensures
        self.start is StartAnchored && self.end is EndAnchored ==> res as int == at(self.start, 0),
//@end
//@fn src/mapper.rs RangeMapper::tail_margin
//@spec
    ensures
        self.start matches EndAnchored(x) ==> res >= x,
        self.end matches EndAnchored(x) ==> res >= x,
        res == 0 || (self.start matches EndAnchored(x) && res == x) || (self.end matches EndAnchored(x) && res == x),
//@end
//@fn src/mapper.rs RangeMapper::to_range
//@spec
    ensures
        res.start <= res.end,
        self.left() ==> res.start == (if self.lo(0) >= base { self.lo(0) - base } else { 0 }),
        self.left() ==> forall|p: int| base <= p ==> (res.start + base <= p < res.end + base <==> self.covers(0, p)),
        self.left() ==> res.end == (if self.hi(0) - base >= res.start { self.hi(0) - base } else { res.start as int }),
//@end
//@fn src/mapper.rs RangeMapper::to_left_anchored
//@subst `|anchor| match anchor {` => `|anchor: RangeMapperAnchor| -> (r: RangeMapperAnchor) ensures r is StartAnchored, at(r, 0) == at(anchor, tail as int) { match anchor {`
//@subst `x => x, };` => `x => x, } };`
//@spec
    ensures
        res.left(),
        res.lo(0) == self.lo(tail as int),
        res.hi(0) == self.hi(tail as int),
//@end
//@fn src/mapper.rs RangeMapper::has_right_anchor
//@spec
    ensures res == !self.left()
//@end
//@fn src/mapper.rs RangeMapper::sort_key
//@spec
    ensures self.left() ==> res.0 == self.lo(0) && res.1 == self.hi(0)
//@end
}

