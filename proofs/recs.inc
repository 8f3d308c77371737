use vstd::bits::*;
use vstd::arithmetic::power2::*;
use vstd::slice::*;

//@include rec.inc
//@include inout.inc
//@include parser.inc
//@include lines.inc
