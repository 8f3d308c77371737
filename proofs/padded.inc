// `s` and the filler bytes that round its length up
spec fn padded(s: Seq<u8>, align: int, filler: u8) -> Seq<u8> { s + fill_seq(pad_len(s.len() as int, align), filler) }
