//@include prelude.rs
//@include mapper.inc
} // verus!
