//@include prelude.rs
//@include streambuf.inc
//@include bytestream.inc
//@include cat.inc
//@include zero.inc
//@include clip.inc
} // verus!
