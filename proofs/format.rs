//@include prelude.rs
use vstd::bits::*;
use vstd::arithmetic::power2::*;
//@include uninit.inc
//@include segment.inc
//@include hexfmt.inc
//@include inout.inc
//@include linefmt.inc
} // verus!
