//@include prelude.rs
use vstd::bits::*;
use vstd::arithmetic::power2::*;
//@assume streambuf.inc streambuf
//@include bytestream.inc
//@include uninit.inc
//@include segment.inc
//@include inout.inc
//@assume hexfmt.inc format
//@assume linefmt.inc format
//@include segtrait.inc
//@include scatter.inc
} // verus!
