//@include prelude.rs
//@assume streambuf.inc streambuf
//@include segment.inc
//@include segtrait.inc
//@include merge.inc
} // verus!
