#![allow(unused)]
use vstd::prelude::*;
use core::ops::Range;
verus! {

global size_of usize == 8;

// errors are opaque: no contract says anything about a call that returns Err
pub struct Error;
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
type Result<T> = core::result::Result<T, Error>;

pub fn any_error() -> Error { Error }

// a panic is an obligation to show that it is not reached
pub fn unreached_panic() requires false { }

// std::cmp::min / max at usize (verified here)
pub fn min_usize(a: usize, b: usize) -> (res: usize)
    ensures res == (if a <= b { a } else { b })
{ if a <= b { a } else { b } }

pub fn max_usize(a: usize, b: usize) -> (res: usize)
    ensures res == (if a >= b { a } else { b })
{ if a >= b { a } else { b } }

// lengths of streams and sums of requests stay below these (stated assumption of the contracts, as a precondition)
pub spec const MAXLEN: int = 0x100_0000_0000_0000;      // 2^56
pub spec const MAXOFF: int = 0x2000_0000_0000_0000;      // 2^61: what anchors of ranges are clamped to (isize::MAX / 4) is below
pub spec const MAXREQ: int = 0x4000_0000_0000_0000;     // 2^62

spec fn fill_seq(n: int, b: u8) -> Seq<u8> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| b) }
