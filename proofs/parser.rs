//@include prelude.rs
//@include streambuf.inc
//@include bytestream.inc
//@include recs.inc
} // verus!
