//@include prelude.rs
use vstd::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::slice::*;
//@include uninit.inc
//@include segment.inc
//@include inout.inc
//@assume hexfmt.inc format
//@assume linefmt.inc format
//@include rec.inc
//@assume parser.inc parser
//@include recfmt.inc
//@include recspec.inc
//@include patchspec.inc
//@include roundtrip.inc
} // verus!
