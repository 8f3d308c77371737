//@include prelude.rs
//@include streambuf.inc
//@include bytestream.inc
//@include uninit.inc
//@include zip.inc
} // verus!
