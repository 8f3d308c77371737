//@include prelude.rs
//@include streambuf.inc
} // verus!
