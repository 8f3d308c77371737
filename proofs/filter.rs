//@include prelude.rs
//@const src/params.rs MARGIN_SIZE
//@include mapper.inc
//@include segment.inc
//@include segtrait.inc
//@include picked.inc
//@include ranges.inc
//@include rangeparse.inc
//@include furthest.inc
//@include filter.inc
} // verus!
