//@include prelude.rs
//@include streambuf.inc
//@include bytestream.inc
//@include recs_c.inc
//@include patchspec.inc
//@include patch.inc
} // verus!
