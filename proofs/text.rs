//@include prelude.rs
//@include streambuf.inc
//@include bytestream.inc
//@include recs_c.inc
//@include recspec.inc
//@include text.inc
} // verus!
