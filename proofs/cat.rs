//@include prelude.rs
//@include streambuf.inc
//@include bytestream.inc

//@include cat.inc
} // verus!
