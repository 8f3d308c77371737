//@struct src/byte/zero.rs ZeroStream

impl ZeroStream {
    spec fn left(&self) -> int { self.len - self.offset }

//@fn src/byte/zero.rs ZeroStream::new
//@spec
    requires len <= MAXLEN
    ensures res.wf(), res.rest() =~= fill_seq(len as int, filler), res.filled(), res.need() == 0
//@end
}

impl ByteStream for ZeroStream {
    spec fn wf(&self) -> bool {
        &&& self.len <= MAXLEN
        &&& self.offset <= self.len
        &&& self.next_len <= self.left()
        &&& (self.next_len >= BLOCK_SIZE || self.next_len == self.left() || self.next_len == 0 && self.left() == 0)
        &&& self.buf@ =~= fill_seq(self.buf.len() as int, self.filler)
        &&& self.buf.len() >= MARGIN_SIZE
    }
    spec fn rest(&self) -> Seq<u8> { fill_seq(self.left(), self.filler) }
    spec fn ended(&self) -> bool { self.next_len == self.left() }
    spec fn avail(&self) -> int { self.next_len as int }
    spec fn nl(&self) -> bool { false }
    spec fn filled(&self) -> bool { self.buf.len() >= self.next_len + MARGIN_SIZE }
    spec fn need(&self) -> nat { 0 }

//@fn src/byte/zero.rs ByteStream for ZeroStream::fill_buf
//@before `self.buf.resize`
        proof {
            assert(self.buf@ =~= fill_seq(self.buf.len() as int, self.filler));
        }
        let ghost b0 = self.buf@;
//@before `let is_eof`
        proof {
            let b1 = self.buf@;
            assert(forall|j: int| 0 <= j < b1.len() && j < b0.len() ==> b1[j] == b0[j]);
            assert(forall|j: int| b0.len() <= j < b1.len() ==> b1[j] == self.filler);
            assert(self.buf@ =~= fill_seq(self.buf.len() as int, self.filler));
            assert(self.buf.len() >= MARGIN_SIZE);
            assert(self.next_len <= self.left());
            assert(self.next_len >= BLOCK_SIZE || self.next_len == self.left());
        }
//@end
//@fn src/byte/zero.rs ByteStream for ZeroStream::as_slice
//@end
//@fn src/byte/zero.rs ByteStream for ZeroStream::consume
//@end
}

