//@include prelude.rs
//@include streambuf.inc
//@include bytestream.inc
//@include padded.inc
//@include uninit.inc
//@include raw.inc
} // verus!
