//@include prelude.rs
use vstd::bits::*;
use vstd::arithmetic::power2::*;
use vstd::slice::*;
//@const src/params.rs MARGIN_SIZE
//@const src/params.rs BLOCK_SIZE
//@include segment.inc
//@include segtrait.inc
//@include bytestream.inc
//@include rec.inc
//@assume parser.inc parser
//@include exact.inc
} // verus!
