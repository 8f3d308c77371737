// ---- what the formatter writes is what the parser reads
proof fn lemma_hexd(y: int)
    requires 0 <= y < 16
    ensures is_hex(hexd(y)), hexv(hexd(y)) == y, hexd(y) != 10, hexd(y) != 32, hexd(y) != 124, hexd(y) != 58
{
}

// v below 16^(2n) is read back from its 2n digits
proof fn lemma_read_hex(s: Seq<u8>, v: int, n: nat, i: int)
    requires
        0 <= i <= 2 * n,
        2 * n < 16,
        2 * n < s.len(),
        0 <= v < pow2(8 * n),
        s.take(2 * n as int) =~= hexnum(v, n),
        s[2 * n as int] == 32,
    ensures hexsingle(s, i, v / (pow2((4 * (2 * n - i)) as nat) as int)) == Some((v, 2 * n as int))
    decreases 2 * n - i
{
    let k = (2 * n - i) as nat;
    lemma2_to64();
    if k > 0 {
        let p = pow2((4 * (k - 1)) as nat) as int;
        lemma_pow2_pos((4 * (k - 1)) as nat);
        lemma_pow2_adds((4 * (k - 1)) as nat, 4);
        let d = hexdig(v, (k - 1) as nat);
        assert(s[i] == s.take(2 * n as int)[i] == hexd(d));
        lemma_hexd(d);
        assert(pow2((4 * k) as nat) == p * 16);
        let q = v / p;
        lemma_div_denominator(v, p, 16);
        assert(v / (p * 16) == q / 16);
        assert(q == (q / 16) * 16 + q % 16);
        lemma_read_hex(s, v, n, i + 1);
    } else {
        assert(pow2((4 * k) as nat) as int == 1);
        assert(v / 1 == v);
    }
}

proof fn lemma_hexnum(s: Seq<u8>, v: int, n: nat)
    requires
        0 < 2 * n < 16,
        2 * n < s.len(),
        0 <= v < pow2(8 * n),
        s.take(2 * n as int) =~= hexnum(v, n),
        s[2 * n as int] == 32,
    ensures hexsingle(s, 0, 0) == Some((v, 2 * n as int))
{
    lemma_read_hex(s, v, n, 0);
    lemma_pow2_pos((8 * n) as nat);
    lemma_basic_div(v, pow2((8 * n) as nat) as int);
}

// decimal digits
proof fn lemma_decdigs(v: int)
    requires v >= 0
    ensures
        forall|j: int| 0 <= j < decdigs(v).len() ==> 48 <= #[trigger] decdigs(v)[j] < 58,
    decreases v
{
    if v > 0 {
        lemma_decdigs(v / 10);
        let t = decdigs(v / 10);
        assert(decdigs(v) =~= t.push((48 + v % 10) as u8));
        assert forall|j: int| 0 <= j < decdigs(v).len() implies 48 <= #[trigger] decdigs(v)[j] < 58 by {
            if j < t.len() { assert(decdigs(v)[j] == t[j]); }
        }
    }
}
proof fn lemma_read_dec(s: Seq<u8>, v: int)
    requires
        0 <= v < MAXNUM,
        decdigs(v).len() <= s.len(),
        s.take(decdigs(v).len() as int) =~= decdigs(v),
    ensures decsingle(s, 0, 0) == decsingle(s, decdigs(v).len() as int, v)
    decreases v
{
    if v > 0 {
        let t = decdigs(v / 10);
        assert(s.take(t.len() as int) =~= t) by {
            assert(forall|j: int| 0 <= j < t.len() ==> s[j] == s.take(decdigs(v).len() as int)[j]);
        }
        lemma_read_dec(s, v / 10);
        assert(s[t.len() as int] == s.take(decdigs(v).len() as int)[t.len() as int]);
        assert(v == v / 10 * 10 + v % 10);
        assert(s[t.len() as int] == (48 + v % 10) as u8);
        assert(v / 10 * 10 + (s[t.len() as int] - 48) == v);
        assert(decsingle(s, t.len() as int, v / 10) == decsingle(s, t.len() + 1int, v));
    }
}
proof fn lemma_decnum(s: Seq<u8>, v: int)
    requires
        0 <= v < MAXNUM,
        decnum(v).len() < s.len(),
        s.take(decnum(v).len() as int) =~= decnum(v),
        s[decnum(v).len() as int] == 32,
    ensures decsingle(s, 0, 0) == Some((v, decnum(v).len() as int))
{
    if v == 0 {
        assert(s[0] == s.take(1)[0] == 48);
        reveal_with_fuel(decsingle, 3);
    } else {
        lemma_read_dec(s, v);
    }
}

// the array of a line: the columns of `a` and `b` blank ones
spec fn cols(a: Seq<u8>, b: int) -> Seq<u8> { hexbody(a) + blanks(3 * b) }

proof fn lemma_col(a: Seq<u8>, b: int, t: int)
    requires 0 <= t < cols(a, b).len(), b >= 0
    ensures
        cols(a, b)[t] != 124, cols(a, b)[t] != 10,
        t >= 3 * a.len() ==> cols(a, b)[t] == 32,
{
    if t < 3 * a.len() {
        lemma_hexd(a[t / 3] as int / 16);
        lemma_hexd(a[t / 3] as int % 16);
    }
}

proof fn lemma_read_cols(a: Seq<u8>, b: int, i: int)
    requires 0 <= i <= a.len(), b >= 0
    ensures columns(cols(a, b), i) == Some(a.skip(i))
    decreases a.len() - i
{
    let c = cols(a, b);
    if i < a.len() {
        let x = a[i] as int;
        assert((3 * i) / 3 == i && (3 * i + 1) / 3 == i && (3 * i + 2) / 3 == i);
        assert(c[3 * i] == hexd(x / 16) && c[3 * i + 1] == hexd(x % 16) && c[3 * i + 2] == 32);
        lemma_hexd(x / 16);
        lemma_hexd(x % 16);
        lemma_read_cols(a, b, i + 1);
        assert(x / 16 * 16 + x % 16 == x);
        assert(seq![a[i]] + a.skip(i + 1) =~= a.skip(i));
    } else {
        assert(a.skip(i) =~= Seq::<u8>::empty());
        if b > 0 { assert(c[3 * i] == 32 && c[3 * i + 1] == 32); }
    }
}

proof fn lemma_read_array(a: Seq<u8>, b: int, r: Seq<u8>)
    requires b >= 0, r.len() > 0, r[0] == 124
    ensures array(cols(a, b) + r) == Some(a)
    decreases a.len() + b
{
    let c = cols(a, b);
    let s = c + r;
    let n = c.len() as int;
    assert(n == 3 * (a.len() + b));
    let blk = s.take(least(SPAN, s.len() as int));
    assert forall|j: int| 0 <= j < blk.len() && j < n implies blk[j] != 124 by { lemma_col(a, b, j); }
    if n < SPAN {
        assert(blk[n] == 124);
        lemma_first_is(blk, 124, n);
        assert(blk.take(n) =~= c);
        lemma_read_cols(a, b, 0);
        assert(a.skip(0) =~= a);
    } else {
        lemma_first_is(blk, 124, SPAN);
        let k = least(64, a.len() as int);
        let (a0, a1) = (a.take(k), a.skip(k));
        assert(blk.take(SPAN) =~= cols(a0, 64 - k)) by {
            assert forall|j: int| 0 <= j < SPAN implies blk.take(SPAN)[j] == cols(a0, 64 - k)[j] by {
                if j < 3 * k { assert(a0[j / 3] == a[j / 3]); }
            }
        }
        lemma_read_cols(a0, 64 - k, 0);
        assert(a0.skip(0) =~= a0);
        let b1 = b - (64 - k);
        assert(s.skip(SPAN) =~= cols(a1, b1) + r) by {
            assert forall|j: int| 0 <= j < s.len() - SPAN implies s.skip(SPAN)[j] == (cols(a1, b1) + r)[j] by {
                if j < 3 * a1.len() {
                    assert((j + SPAN) / 3 == j / 3 + 64 && (j + SPAN) % 3 == j % 3);
                    assert(k == 64);
                    assert(a1[j / 3] == a[j / 3 + 64]);
                }
            }
        }
        lemma_read_array(a1, b1, r);
        assert(a0 + a1 =~= a);
    }
}

// the head of a line in either form of numbers
spec fn num(f: PNum, v: int, n: nat) -> Seq<u8> { match f { PNum::Hex => hexnum(v, n), PNum::Dec => decnum(v) } }
spec fn numok(f: PNum, v: int, n: nat) -> bool {
    match f { PNum::Hex => 0 < 2 * n < 16 && 0 <= v < pow2(8 * n), PNum::Dec => 0 <= v < MAXNUM }
}
proof fn lemma_num(f: PNum, v: int, n: nat, r: Seq<u8>)
    requires numok(f, v, n), r.len() > 0, r[0] == 32
    ensures
        number(f, num(f, v, n) + r) == Some((v, num(f, v, n).len() as int)),
        forall|j: int| 0 <= j < num(f, v, n).len() ==> #[trigger] num(f, v, n)[j] != 10,
{
    let d = num(f, v, n);
    let s = d + r;
    assert(s.take(d.len() as int) =~= d);
    match f {
        PNum::Hex => {
            lemma_hexnum(s, v, n);
            assert forall|j: int| 0 <= j < d.len() implies #[trigger] d[j] != 10 by { lemma_hexd(hexdig(v, (2 * n - 1 - j) as nat)); }
        },
        PNum::Dec => { lemma_decnum(s, v); lemma_decdigs(v); },
    }
}

// a line of the formatter, without its newline
spec fn line_body(src: Seq<u8>, width: int) -> Seq<u8> {
    cols(src, width - src.len()) + (seq![124u8, 32u8] + (dotted(src) + blanks(width - src.len())))
}
spec fn line_any(fo: PNum, n: nat, fs: PNum, m: nat, src: Seq<u8>, offset: int, width: int) -> Seq<u8> {
    num(fo, offset, n) + (seq![32u8] + (num(fs, src.len() as int, m) + (seq![32u8, 124u8, 32u8] + line_body(src, width))))
}

proof fn lemma_line(fo: PNum, n: nat, fs: PNum, m: nat, src: Seq<u8>, offset: int, width: int)
    requires numok(fo, offset, n), numok(fs, src.len() as int, m), src.len() <= width
    ensures
        record(fo, fs, line_any(fo, n, fs, m, src, offset, width)) == Some(Rec { off: offset as nat, span: src.len(), body: src }),
        forall|j: int| 0 <= j < line_any(fo, n, fs, m, src, offset, width).len() ==> #[trigger] line_any(fo, n, fs, m, src, offset, width)[j] != 10,
{
    let line = line_any(fo, n, fs, m, src, offset, width);
    let body = line_body(src, width);
    let r2 = seq![32u8, 124u8, 32u8] + body;
    let d1 = num(fo, offset, n);
    let d2 = num(fs, src.len() as int, m);
    let r1 = seq![32u8] + (d2 + r2);
    lemma_num(fo, offset, n, r1.push(10));
    lemma_num(fs, src.len() as int, m, r2.push(10));
    assert(line.push(10) =~= d1 + r1.push(10));
    assert(line.push(10).skip(d1.len() + 1int) =~= d2 + r2.push(10));
    let k = (d1.len() + d2.len() + 1) as int;
    assert(line.push(10)[d1.len() as int] == 32);
    assert(line[k] == 32 && line[k + 1] == 124 && line[k + 2] == 32);
    assert(line.skip(k + 3) =~= body);
    let tail = seq![124u8, 32u8] + (dotted(src) + blanks(width - src.len()));
    lemma_read_array(src, width - src.len(), tail);
    assert forall|j: int| 0 <= j < line.len() implies #[trigger] line[j] != 10 by {
        let c = cols(src, width - src.len());
        if j < d1.len() { assert(line[j] == d1[j]); }
        else if j == d1.len() { }
        else if j < k { assert(line[j] == d2[j - d1.len() - 1]); }
        else if j < k + 3 { }
        else if j < k + 3 + c.len() { assert(line[j] == c[j - k - 3]); lemma_col(src, width - src.len(), j - k - 3); }
        else { assert(line[j] == tail[j - k - 3 - c.len()]); }
    }
}

// the records that stand for the slices
spec fn slice_recs(offset: int, stream: Seq<u8>, segs: Seq<Segment>) -> Seq<Rec> {
    Seq::new(segs.len(), |i: int| Rec { off: (offset + segs[i].pos) as nat, span: segs[i].len as nat, body: sub(stream, segs[i]) })
}

spec fn lines_of(f: Fmt, offset: int, w: int, stream: Seq<u8>, segs: Seq<Segment>) -> Seq<u8> { formatted(f, offset, w, stream, segs) }
spec fn line_of_seg(f: Fmt, offset: int, w: int, stream: Seq<u8>, s: Segment) -> Seq<u8> {
    match f {
        Fmt::Ddh => line_ddh(sub(stream, s), offset + s.pos, wide(s, w)),
        _ => line_hhh(sub(stream, s), offset + s.pos, wide(s, w)),
    }
}

proof fn lemma_front(f: Fmt, offset: int, w: int, stream: Seq<u8>, segs: Seq<Segment>)
    requires segs.len() > 0, f != Fmt::Bin
    ensures formatted(f, offset, w, stream, segs) =~= line_of_seg(f, offset, w, stream, segs[0]) + formatted(f, offset, w, stream, segs.skip(1))
    decreases segs.len()
{
    if segs.len() > 1 {
        lemma_front(f, offset, w, stream, segs.drop_last());
        assert(segs.skip(1).drop_last() =~= segs.drop_last().skip(1));
        assert(segs.skip(1).last() == segs.last());
        assert(segs.drop_last()[0] == segs[0]);
    } else {
        assert(segs.drop_last() =~= Seq::<Segment>::empty());
        assert(segs.skip(1) =~= Seq::<Segment>::empty());
    }
}

proof fn lemma_fits(len: int)
    requires 0 <= len < 0x100_0000_0000_0000
    ensures numok(PNum::Hex, len, span_bytes(len))
{
    lemma2_to64();
    lemma2_to64_rest();
}

// P02: reading the text of the slices gives the records of the slices, whatever the widths
// one line of the text
proof fn lemma_one(format: InoutFormat, offset: int, w: int, stream: Seq<u8>, s: Segment, rest: Seq<u8>)
    requires
        format.known(),
        parseable(format),
        0 <= offset,
        s.end() <= stream.len(),
        offset + stream.len() < 0x1_0000_0000_0000,
    ensures
        records_of(numeral(format.offset), numeral(format.span), line_of_seg(format.fmt(), offset, w, stream, s) + rest)
            == seq![Rec { off: (offset + s.pos) as nat, span: s.len as nat, body: sub(stream, s) }] + records_of(numeral(format.offset), numeral(format.span), rest),
{
    let f = format.fmt();
    let src = sub(stream, s);
    let (fo, fs) = (numeral(format.offset), numeral(format.span));
    let text = line_of_seg(f, offset, w, stream, s) + rest;
    lemma2_to64();
    lemma2_to64_rest();
    lemma_fits(src.len() as int);
    let line = line_any(fo, 6, fs, span_bytes(src.len() as int), src, offset + s.pos, wide(s, w));
    assert(line_of_seg(f, offset, w, stream, s) =~= line.push(10));
    lemma_line(fo, 6, fs, span_bytes(src.len() as int), src, offset + s.pos, wide(s, w));
    assert(text =~= line.push(10) + rest);
    lemma_first_is(text, 10, line.len() as int);
    assert(line_of(text) =~= line);
    assert(after_line(text) =~= rest);
}
proof fn roundtrip(format: InoutFormat, offset: int, w: int, stream: Seq<u8>, segs: Seq<Segment>)
    requires
        format.known(),
        parseable(format),
        0 <= offset,
        inside(segs, stream.len() as int),
        offset + stream.len() < 0x1_0000_0000_0000,     // twelve hexadecimal digits
    ensures
        text_recs(formatted(format.fmt(), offset, w, stream, segs), format) =~= slice_recs(offset, stream, segs),
    decreases segs.len()
{
    let f = format.fmt();
    let text = formatted(f, offset, w, stream, segs);
    if segs.len() > 0 {
        let s = segs[0];
        assert(s.end() <= stream.len());
        lemma_front(f, offset, w, stream, segs);
        let rest = formatted(f, offset, w, stream, segs.skip(1));
        lemma_one(format, offset, w, stream, s, rest);
        assert forall|j: int| 0 <= j < segs.skip(1).len() implies (#[trigger] segs.skip(1)[j]).end() <= stream.len() by { assert(segs.skip(1)[j] == segs[j + 1]); }
        roundtrip(format, offset, w, stream, segs.skip(1));
        assert(slice_recs(offset, stream, segs) =~= seq![slice_recs(offset, stream, segs)[0]] + slice_recs(offset, stream, segs.skip(1)));
    }
}

// P02: the slices of a stream that follow one another from its start on, up to the end
spec fn tiles(segs: Seq<Segment>, at: int, end: int) -> bool
    decreases segs.len()
{
    if segs.len() == 0 { at == end } else { segs[0].pos == at && segs[0].end() <= end && tiles(segs.skip(1), segs[0].end(), end) }
}

proof fn lemma_tiles_placed(offset: int, stream: Seq<u8>, segs: Seq<Segment>, at: int, filler: u8)
    requires tiles(segs, at, stream.len() as int), 0 <= at <= stream.len(), offset >= 0
    ensures
        placed(offset + at, slice_recs(offset, stream, segs), filler) =~= stream.skip(at),
        bodies(slice_recs(offset, stream, segs)) =~= stream.skip(at),
        patched(stream.skip(at), offset + at, slice_recs(offset, stream, segs)) =~= stream.skip(at),
    decreases segs.len()
{
    let recs = slice_recs(offset, stream, segs);
    if segs.len() > 0 {
        let s = segs[0];
        lemma_tiles_placed(offset, stream, segs.skip(1), s.end(), filler);
        assert(recs.skip(1) =~= slice_recs(offset, stream, segs.skip(1)));
        assert(stream.skip(at) =~= sub(stream, s) + stream.skip(s.end()));
        assert(fill_seq(0, filler) =~= Seq::<u8>::empty());
        if s.pos < stream.len() {
            assert(stream.skip(at).skip(s.len as int) =~= stream.skip(s.end()));
            assert(stream.skip(at).subrange(0, 0) =~= Seq::<u8>::empty());
        } else {
            assert(stream.skip(at) =~= Seq::<u8>::empty());
        }
    }
}

// the text of any such slices, read as a stream (with the positions, without them, or as a patch of the stream itself), is the stream
proof fn restored(format: InoutFormat, w: int, stream: Seq<u8>, segs: Seq<Segment>, filler: u8)
    requires
        format.known(),
        parseable(format),
        inside(segs, stream.len() as int),
        stream.len() < 0x1_0000_0000_0000,
        tiles(segs, 0, stream.len() as int),
    ensures
        placed(0, text_recs(formatted(format.fmt(), 0, w, stream, segs), format), filler) =~= stream,
        bodies(text_recs(formatted(format.fmt(), 0, w, stream, segs), format)) =~= stream,
        patched(stream, 0, text_recs(formatted(format.fmt(), 0, w, stream, segs), format)) =~= stream,
{
    roundtrip(format, 0, w, stream, segs);
    lemma_tiles_placed(0, stream, segs, 0, filler);
    assert(stream.skip(0) =~= stream);
}

// slices in the order of their positions that do not overlap: what is outside of them is filled, and a patch with them changes nothing
spec fn ordered(segs: Seq<Segment>, at: int, end: int) -> bool
    decreases segs.len()
{
    if segs.len() == 0 { at <= end } else { segs[0].pos >= at && segs[0].end() <= end && ordered(segs.skip(1), segs[0].end(), end) }
}
proof fn lemma_ordered_patch(offset: int, stream: Seq<u8>, segs: Seq<Segment>, at: int)
    requires ordered(segs, at, stream.len() as int), 0 <= at <= stream.len(), offset >= 0
    ensures patched(stream.skip(at), offset + at, slice_recs(offset, stream, segs)) =~= stream.skip(at)
    decreases segs.len()
{
    let recs = slice_recs(offset, stream, segs);
    if segs.len() > 0 {
        let s = segs[0];
        let src = stream.skip(at);
        lemma_ordered_patch(offset, stream, segs.skip(1), s.end());
        assert(recs.skip(1) =~= slice_recs(offset, stream, segs.skip(1)));
        let d = s.pos - at;
        assert(src =~= src.subrange(0, d) + sub(stream, s) + stream.skip(s.end()));
        if d < src.len() {
            assert(src.skip(d + s.len) =~= stream.skip(s.end()));
        } else {
            assert(stream.skip(s.end()) =~= Seq::<u8>::empty());
        }
    }
}

// the stream in which everything outside of the slices is the filler
spec fn masked(stream: Seq<u8>, segs: Seq<Segment>, at: int, filler: u8) -> Seq<u8>
    decreases segs.len()
{
    if segs.len() == 0 { Seq::empty() }
    else { fill_seq(segs[0].pos - at, filler) + sub(stream, segs[0]) + masked(stream, segs.skip(1), segs[0].end(), filler) }
}
proof fn lemma_masked(offset: int, stream: Seq<u8>, segs: Seq<Segment>, at: int, filler: u8)
    requires ordered(segs, at, stream.len() as int), 0 <= at, offset >= 0
    ensures placed(offset + at, slice_recs(offset, stream, segs), filler) =~= masked(stream, segs, at, filler)
    decreases segs.len()
{
    let recs = slice_recs(offset, stream, segs);
    if segs.len() > 0 {
        lemma_masked(offset, stream, segs.skip(1), segs[0].end(), filler);
        assert(recs.skip(1) =~= slice_recs(offset, stream, segs.skip(1)));
    }
}
