//@include prelude.rs
//@include streambuf.inc
//@include segment.inc
//@include segtrait.inc
//@include bytestream.inc
//@include recs_c.inc
//@include clipped.inc
//@include guided.inc
} // verus!
