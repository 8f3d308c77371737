//@include prelude.rs
use vstd::slice::*;
//@const src/params.rs MARGIN_SIZE
//@include segment.inc
//@include segtrait.inc
//@include clipped.inc
//@include sortseg.inc
//@include exprs.inc
//@include segmap.inc
//@include mapped.inc
//@include bridge.inc
} // verus!
