use vstd::bits::*;
use vstd::arithmetic::power2::*;
use vstd::slice::*;

//@include rec.inc
//@include inout.inc
// the parser: its contracts only
//@assume parser.inc parser
//@assume lines.inc parser
