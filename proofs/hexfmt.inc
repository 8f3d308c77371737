// ---- digits
spec fn hexd(y: int) -> u8 { if y < 10 { (48 + y) as u8 } else { (87 + y) as u8 } }

// the k-th hexadecimal digit of v, from the lowest
spec fn hexdig(v: int, k: nat) -> int { v / (pow2(4 * k) as int) % 16 }

// n bytes' worth of hexadecimal digits of v, the highest first
spec fn hexnum(v: int, n: nat) -> Seq<u8> { Seq::new(2 * n, |i: int| hexd(hexdig(v, (2 * n - 1 - i) as nat))) }

proof fn lemma_hexdig(v: usize, k: nat)
    requires k < 16
    ensures (v >> ((4 * k) as usize)) & 0x0f == hexdig(v as int, k)
{
    let s = (4 * k) as usize;
    let x = v as u64;
    let t = s as u64;
    assert(v >> s == (x >> t) as usize) by(bit_vector) requires x == v as u64, t == s as u64;
    lemma_u64_shr_is_div(x, t);
    let q = v >> s;
    assert(q & 0x0f == q % 16) by(bit_vector);
}

//@fn src/text/formatter/hex.rs format_hex_single_naive
//@subst `for (i, x) in dst[..2 * active_bytes].iter_mut().enumerate() {` => `for i in 0..2 * active_bytes {`
//@subst `*x =` => `dst[i] =`
//@spec
    requires
        1 <= active_bytes <= 8,
        old(dst)@.len() >= 2 * active_bytes + 1,
    ensures
        res == 2 * active_bytes + 1,
        final(dst)@.len() == old(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= hexnum(val as int, active_bytes as nat).push(32u8),
        final(dst)@.skip(res as int) =~= old(dst)@.skip(res as int),
//@loop 1
            invariant
                1 <= active_bytes <= 8,
                dst@.len() == old(dst)@.len(),
                dst@.len() >= 2 * active_bytes + 1,
                forall|j: int| 0 <= j < i ==> #[trigger] dst@[j] == hexnum(val as int, active_bytes as nat)[j],
                forall|j: int| i <= j < dst@.len() ==> #[trigger] dst@[j] == old(dst)@[j],
//@loopstart 1
            proof {
                let k = (2 * active_bytes - i - 1) as nat;
                lemma_hexdig(val, k);
                assert(hexdig(val as int, k) < 16);
            }
//@end

//@fn src/text/formatter/hex.rs format_hex_single
//@spec
    requires
        1 <= active_bytes <= 8,
        old(dst)@.len() >= 2 * active_bytes + 1,
    ensures
        res == 2 * active_bytes + 1,
        final(dst)@.len() == old(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= hexnum(val as int, active_bytes as nat).push(32u8),
        final(dst)@.skip(res as int) =~= old(dst)@.skip(res as int),
//@end

// two digits and a space per byte
spec fn hexbody(s: Seq<u8>) -> Seq<u8> {
    Seq::new(3 * s.len(), |t: int| if t % 3 == 0 { hexd(s[t / 3] as int / 16) } else if t % 3 == 1 { hexd(s[t / 3] as int % 16) } else { 32u8 })
}

//@fn src/text/formatter/hex.rs format_hex_body_naive
//@subst `for (i, &x) in src.iter().enumerate() {` => `for i in 0..src.len() { let x = src[i];`
//@spec
    requires
        old(dst)@.len() >= 3 * src@.len(),
        src@.len() <= MAXLEN,
    ensures
        res == 3 * src@.len(),
        final(dst)@.len() == old(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= hexbody(src@),
        final(dst)@.skip(res as int) =~= old(dst)@.skip(res as int),
//@loop 1
            invariant
                dst@.len() == old(dst)@.len(),
                dst@.len() >= 3 * src@.len(),
                src@.len() <= MAXLEN,
                forall|j: int| 0 <= j < 3 * i ==> #[trigger] dst@[j] == hexbody(src@)[j],
                forall|j: int| 3 * i <= j < dst@.len() ==> #[trigger] dst@[j] == old(dst)@[j],
//@before `dst[3 * i] =`
            proof {
                assert(x >> 4 == x / 16 && x & 0x0f == x % 16 && x / 16 < 16) by(bit_vector);
                assert((3 * i + 1) / 3 == i && (3 * i) / 3 == i && (3 * i + 2) / 3 == i);
            }
//@end

//@fn src/text/formatter/hex.rs format_hex_body
//@spec
    requires
        old(dst)@.len() >= 3 * src@.len(),
        src@.len() <= MAXLEN,
    ensures
        res == 3 * src@.len(),
        final(dst)@.len() == old(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= hexbody(src@),
        final(dst)@.skip(res as int) =~= old(dst)@.skip(res as int),
//@end

// printable characters, and dots
spec fn dotted(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |t: int| if 32 <= s[t] < 127 { s[t] } else { 46u8 }) }

//@fn src/text/formatter/hex.rs format_mosaic_naive
//@subst `for (x, y) in src.iter().zip(dst.iter_mut()) {` => `for i in 0..min_usize(src.len(), dst.len()) {`
//@subst `*y =` => `dst[i] =`
//@subst `*x` => `src[i]` *
//@spec
    requires
        old(dst)@.len() >= src@.len(),
    ensures
        res == src@.len(),
        final(dst)@.len() == old(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= dotted(src@),
        final(dst)@.skip(res as int) =~= old(dst)@.skip(res as int),
//@loop 1
            invariant
                dst@.len() == old(dst)@.len(),
                dst@.len() >= src@.len(),
                forall|j: int| 0 <= j < i ==> #[trigger] dst@[j] == dotted(src@)[j],
                forall|j: int| i <= j < dst@.len() ==> #[trigger] dst@[j] == old(dst)@[j],
//@end

//@fn src/text/formatter/hex.rs format_mosaic
//@spec
    requires
        old(dst)@.len() >= src@.len(),
    ensures
        res == src@.len(),
        final(dst)@.len() == old(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= dotted(src@),
        final(dst)@.skip(res as int) =~= old(dst)@.skip(res as int),
//@end

// ---- decimal numbers
spec fn decdigs(v: int) -> Seq<u8>
    decreases v
{
    if v <= 0 { Seq::empty() } else { decdigs(v / 10).push((48 + v % 10) as u8) }
}
spec fn decnum(v: int) -> Seq<u8> { if v == 0 { seq![48u8] } else { decdigs(v) } }

spec fn revd(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }

spec fn p10(k: nat) -> int
    decreases k
{
    if k == 0 { 1 } else { 10 * p10((k - 1) as nat) }
}

proof fn lemma_p10(k: nat)
    ensures p10(k) >= 1, k >= 20 ==> p10(k) >= 100_000_000_000_000_000_000
    decreases k
{
    if k > 0 {
        lemma_p10((k - 1) as nat);
        if k == 20 { reveal_with_fuel(p10, 21); }
    }
}

//@fn src/text/formatter/dec.rs format_dec_single_naive
//@spec
    requires
        old(dst)@.len() >= 32,
    ensures
        res == decnum(val as int).len() + 1,
        res <= 32,
        final(dst)@.len() == old(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= decnum(val as int).push(32u8),
        final(dst)@.skip(res as int) =~= old(dst)@.skip(res as int),
//@entry
        let ghost v0 = val as int;
//@beforeloop 1
        proof {
            assert(p10(0) == 1);
            assert(revd(buf@.subrange(1, 1)) =~= Seq::<u8>::empty());
        }
//@loop 1
            invariant
                1 <= p <= 21,
                buf@[0] == 32u8,
                v0 == 0 ==> p == 1 && buf@[1] == 48u8,
                v0 > 0 && val == 0 ==> p >= 2,
                0 <= v0 <= usize::MAX,
                val * p10((p - 1) as nat) <= v0,
                decdigs(v0) =~= decdigs(val as int) + revd(buf@.subrange(1, p as int)),
            decreases val
//@loopstart 1
            let ghost (x0, q0, c0) = (val as int, p as int, buf@);
            proof {
                lemma_p10((p - 1) as nat);
                assert(p < 21) by(nonlinear_arith)
                    requires val >= 1, val * p10((p - 1) as nat) <= v0, v0 <= usize::MAX, p >= 21 ==> p10((p - 1) as nat) >= 100_000_000_000_000_000_000;
            }
//@loopend 1
            proof {
                assert(p10((p - 1) as nat) == 10 * p10((p - 2) as nat));
                let z = p10((p - 2) as nat);
                lemma_p10((p - 2) as nat);
                assert(val * (10 * z) <= v0) by(nonlinear_arith)
                    requires val as int == x0 / 10, x0 * z <= v0, z >= 1, x0 >= 0;
                let a = buf@.subrange(1, p as int);
                let b = c0.subrange(1, q0);
                assert(a =~= b.push((48 + x0 % 10) as u8));
                assert(revd(a) =~= seq![(48 + x0 % 10) as u8] + revd(b));
                assert(decdigs(x0) =~= decdigs(val as int).push((48 + x0 % 10) as u8));
            }
//@loop 2
            invariant
                2 <= len <= 22,
                len <= 32,
                dst@.len() == old(dst)@.len(),
                dst@.len() >= 32,
                forall|j: int| 0 <= j < i ==> #[trigger] dst@[j] == buf@[len - j - 1],
                forall|j: int| i <= j < dst@.len() ==> #[trigger] dst@[j] == old(dst)@[j],
//@beforeloop 2
        proof {
            if v0 > 0 {
                assert(decdigs(v0) =~= revd(buf@.subrange(1, p as int)));
            }
        }
//@end

//@fn src/text/formatter/dec.rs format_dec_single
//@spec
    requires
        old(dst)@.len() >= 32,
    ensures
        res == decnum(val as int).len() + 1,
        res <= 32,
        final(dst)@.len() == old(dst)@.len(),
        final(dst)@.subrange(0, res as int) =~= decnum(val as int).push(32u8),
        final(dst)@.skip(res as int) =~= old(dst)@.skip(res as int),
//@end
