// std::io::Read: what is read is the head of what is left; nothing is read only at the end (or into an empty array)
trait Read {
    spec fn rest(&self) -> Seq<u8>;
    fn read(&mut self, arr: &mut [u8]) -> (res: Result<usize>)
        ensures
            final(arr)@.len() == old(arr)@.len(),
            res matches Ok(n) ==> {
                &&& n <= old(arr)@.len()
                &&& n <= old(self).rest().len()
                &&& final(arr)@.subrange(0, n as int) =~= old(self).rest().subrange(0, n as int)
                &&& final(self).rest() =~= old(self).rest().skip(n as int)
                &&& n == 0 && old(arr)@.len() > 0 ==> old(self).rest().len() == 0
            };
}

//@struct src/byte/raw.rs RawStream `Box<dyn Read + Send>` => `Box<dyn Read>`

struct ReadEnv<'a> {
    src: &'a mut Box<dyn Read>,
}
impl<'a> Writer for ReadEnv<'a> {
    spec fn pre(&self, len: int) -> bool { len > 0 }
    spec fn sure(&self) -> bool { false }
    type Wfin = Box<dyn Read>;
    #[verifier::prophetic]
    spec fn wfin(&self) -> Self::Wfin { *final(self.src) }
    spec fn post(&self, after: &Self, out: Seq<u8>) -> bool {
        &&& self.src.rest() =~= out + after.src.rest()
        &&& out.len() == 0 ==> self.src.rest().len() == 0
    }
//@closure src/byte/raw.rs ByteStream for RawStream::fill_buf 2
//@sig fn call(&mut self, arr: &mut [u8]) -> Result<usize>
//@subst `Ok(self.src.read(arr)?)` => `let n = self.src.read(arr)?; Ok(n)`
//@exit
//@end
}

struct RawEnv<'a> {
    src: &'a mut Box<dyn Read>,
}
impl<'a> Filler for RawEnv<'a> {
    spec fn wf(&self, buf: Seq<u8>) -> bool { true }
    spec fn wf_end(&self, buf: Seq<u8>) -> bool { true }
    spec fn rest(&self) -> Seq<u8> { self.src.rest() }
    spec fn need(&self) -> nat { 0 }
    type Fin = Box<dyn Read>;
    #[verifier::prophetic]
    spec fn fin(&self) -> Self::Fin { *final(self.src) }

//@closure src/byte/raw.rs ByteStream for RawStream::fill_buf 1
//@sig fn call(&mut self, request: usize, buf: &mut Vec<u8>) -> Result<bool>
//@closurearg 1 => `&mut env`
//@subst `buf.fill_uninit(` => `fill_uninit(buf, `
//@entry
        let mut env = ReadEnv { src: &mut *self.src };
        let ghost b0 = buf@;
//@end
}

impl RawStream {
    // the bytes of the source, rounded up to the alignment with the filler
//@fn src/byte/raw.rs RawStream::new
//@sig fn new(src: Box<dyn Read>, align: usize, filler: u8) -> Self
//@spec
    requires
        1 <= align <= MAXLEN,
        src.rest().len() + align <= MAXLEN,
    ensures
        res.wf(),
        res.nl(),
        res.rest() =~= padded(src.rest(), align as int, filler),
//@end
}

impl ByteStream for RawStream {
    spec fn wf(&self) -> bool {
        &&& self.buf.wf()
        &&& self.buf.is_eof ==> self.buf.nlm()
        &&& !self.buf.is_eof ==> self.buf.end() + self.src.rest().len() + self.buf.align <= MAXLEN
    }
    spec fn rest(&self) -> Seq<u8> { self.buf.future(self.src.rest()) }
    spec fn ended(&self) -> bool { self.buf.is_eof }
    spec fn avail(&self) -> int { self.buf.content().len() as int }
    spec fn nl(&self) -> bool { true }
    spec fn filled(&self) -> bool { self.buf.nlm() }
    spec fn need(&self) -> nat { 1 }
//@fn src/byte/raw.rs ByteStream for RawStream::fill_buf
//@closurearg 1 => `&mut env`
//@entry
        let mut env = RawEnv { src: &mut self.src };
//@end
//@fn src/byte/raw.rs ByteStream for RawStream::as_slice
//@end
//@fn src/byte/raw.rs ByteStream for RawStream::consume
//@end
}
