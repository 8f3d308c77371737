trait ByteStream {
    spec fn wf(&self) -> bool;
    // everything that is not consumed, up to the end of the stream
    spec fn rest(&self) -> Seq<u8>;
    // length that is exposed
    spec fn avail(&self) -> int;
    // the margin after what is exposed is filled with newlines
    spec fn nl(&self) -> bool;
    // as_slice may be called
    spec fn filled(&self) -> bool;
    // the end has been announced, and will be again
    spec fn ended(&self) -> bool;
    // room for requests that the stream needs above the one it is given
    spec fn need(&self) -> nat;

    fn fill_buf(&mut self, request: usize) -> (res: Result<(bool, usize)>)
        requires
            old(self).wf(),
            request + old(self).need() <= MAXREQ,
        ensures
            res matches Ok((e, n)) ==> {
                &&& final(self).wf()
                &&& final(self).need() == old(self).need()
                &&& final(self).nl() == old(self).nl()
                &&& final(self).rest() =~= old(self).rest()
                &&& final(self).filled()
                &&& n == final(self).avail()
                &&& n <= final(self).rest().len()
                &&& n >= old(self).avail()
                &&& e ==> n == final(self).rest().len()
                &&& e ==> final(self).ended()
                &&& old(self).ended() ==> e
                &&& !e ==> n >= request
            };

    fn as_slice(&self) -> (res: &[u8])
        requires
            self.wf(),
            self.filled(),
        ensures
            res.len() >= self.avail() + MARGIN_SIZE,
            res@.subrange(0, self.avail()) =~= self.rest().subrange(0, self.avail()),
            self.nl() ==> forall|i: int| self.avail() <= i < self.avail() + MARGIN_SIZE ==> res@[i] == 10;

    fn consume(&mut self, amount: usize)
        requires
            old(self).wf(),
            old(self).filled(),
            amount <= old(self).avail(),
        ensures
            final(self).wf(),
            final(self).need() == old(self).need(),
            final(self).nl() == old(self).nl(),
            final(self).rest() =~= old(self).rest().skip(amount as int),
            final(self).avail() >= old(self).avail() - amount,
            old(self).ended() ==> final(self).ended(),
            0 <= final(self).avail() <= final(self).rest().len(),
            final(self).rest().len() == 0 ==> final(self).filled();
}

// a source that a stream may be built on
spec fn sok(s: Box<dyn ByteStream>) -> bool {
    &&& s.wf()
    &&& 0 <= s.avail() <= s.rest().len()
    &&& s.rest().len() <= MAXLEN
    &&& s.need() + 16 * MAXLEN + 64 <= MAXREQ
}

