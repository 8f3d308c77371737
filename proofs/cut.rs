//@include prelude.rs
//@include streambuf.inc
//@include bytestream.inc
//@include mapper.inc
//@include picked.inc
//@include ranges.inc
//@include rangeparse.inc
//@include cut.inc
} // verus!
