// `src` starts at the absolute position `base`. A record replaces [off, off + span), also when that stretches beyond the end; those
// at the end are appended one after another
spec fn patched(src: Seq<u8>, base: int, recs: Seq<Rec>) -> Seq<u8>
    decreases recs.len()
{
    if recs.len() == 0 { src }
    else {
        let r = recs[0];
        let d = r.off - base;
        if d > src.len() { src }
        else if d == src.len() { src + r.body + patched(Seq::empty(), (r.off + r.span) as int, recs.skip(1)) }
        else if d + r.span > src.len() { src.subrange(0, d) + r.body }
        else { src.subrange(0, d) + r.body + patched(src.skip(d + r.span), (r.off + r.span) as int, recs.skip(1)) }
    }
}

proof fn lemma_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures s.skip(a).skip(b) =~= s.skip(a + b)
{
}

// the part of the stream before the first record passes unchanged
proof fn lemma_patched_fwd(src: Seq<u8>, base: int, recs: Seq<Rec>, n: int)
    requires
        0 <= n <= src.len(),
        recs.len() > 0 ==> base + n <= recs[0].off,
    ensures
        patched(src, base, recs) =~= src.subrange(0, n) + patched(src.skip(n), base + n, recs)
{
    assert(src =~= src.subrange(0, n) + src.skip(n));
    if recs.len() > 0 {
        let r = recs[0];
        let d = r.off - base;
        let e = d - n;
        let t = src.skip(n);
        if d < src.len() {
            assert(src.subrange(0, d) =~= src.subrange(0, n) + t.subrange(0, e));
            if d + r.span <= src.len() {
                lemma_skip(src, n, e + r.span);
            }
        }
    }
}
