// what FillUninit::fill_uninit is given: a closure that writes the head of the array and tells how much it has written
trait Writer {
    spec fn pre(&self, len: int) -> bool;
    type Wfin;
    #[verifier::prophetic]
    spec fn wfin(&self) -> Self::Wfin;
    // the call does not fail
    spec fn sure(&self) -> bool;
    // what has become of the borrowed variables, with the bytes written
    spec fn post(&self, after: &Self, out: Seq<u8>) -> bool;
    fn call(&mut self, arr: &mut [u8]) -> (res: Result<usize>)
        requires
            old(self).pre(old(arr)@.len() as int),
        ensures
            final(arr)@.len() == old(arr)@.len(),
            old(self).sure() ==> res is Ok,
            res matches Ok(n) ==> {
                &&& n <= old(arr)@.len()
                &&& final(self).wfin() == old(self).wfin()
                &&& old(self).post(final(self), final(arr)@.subrange(0, n as int))
            };
}

// FillUninit::fill_uninit for Vec<u8>: assumed here (unsafe code); a bounded harness runs the real one
#[verifier::external_body]
fn fill_uninit<W: Writer>(buf: &mut Vec<u8>, len: usize, f: &mut W) -> (res: Result<usize>)
    requires
        old(f).pre(len as int),
        old(buf).len() + len <= 8 * MAXLEN,
    ensures
        old(f).sure() ==> res is Ok,
        res matches Ok(n) ==> {
            &&& n <= len
            &&& final(f).wfin() == old(f).wfin()
            &&& exists|out: Seq<u8>| #![trigger old(f).post(final(f), out)] out.len() == n && final(buf)@ == old(buf)@ + out && old(f).post(final(f), out)
        },
{ unimplemented!() }
