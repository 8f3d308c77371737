//@include prelude.rs
use vstd::slice::*;
//@const src/params.rs MARGIN_SIZE
//@const src/params.rs BLOCK_SIZE
//@include segment.inc
//@include segtrait.inc
//@include bytestream.inc
//@include exprs.inc
//@assume evalspec.inc eval
//@assume eval.inc eval
//@assume lex.inc eval
//@assume expr.inc eval
//@assume unique.inc eval
//@assume value.inc eval
//@include walk.inc
} // verus!
