//@include prelude.rs
//@const src/params.rs MARGIN_SIZE
//@const src/params.rs BLOCK_SIZE
//@include mapper.inc
//@include segment.inc
//@include segtrait.inc
//@include bytestream.inc
//@include ranges.inc
//@include rangeparse.inc
//@include furthest.inc
//@include rangeseg.inc
} // verus!
