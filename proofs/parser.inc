// ---- the grammar of the records
spec fn is_hex(x: u8) -> bool { 48 <= x < 58 || 65 <= x < 71 || 97 <= x < 103 }
spec fn hexv(x: u8) -> int { if x < 58 { x - 48 } else if x < 71 { x - 55 } else { x - 87 } }

// a hexadecimal number of at most 15 digits from s[i] on, up to a blank, a newline or a colon
spec fn hexsingle(s: Seq<u8>, i: int, acc: int) -> Option<(int, int)>
    decreases s.len() - i
{
    if i < 0 || i >= 16 || i >= s.len() { None }
    else if s[i] == 32 || s[i] == 10 || s[i] == 58 { Some((acc, i)) }
    else if !is_hex(s[i]) { None }
    else { hexsingle(s, i + 1, acc * 16 + hexv(s[i])) }
}

// a decimal number below 2^60 from s[i] on, up to a blank
spec fn decsingle(s: Seq<u8>, i: int, acc: int) -> Option<(int, int)>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { None }
    else if s[i] == 32 { Some((acc, i)) }
    else if !(48 <= s[i] < 58) { None }
    else if acc * 10 + (s[i] - 48) >= MAXNUM { None }
    else { decsingle(s, i + 1, acc * 10 + (s[i] - 48)) }
}

// the array: two digits and a blank each, up to a blank pair or the end; None if there is anything else
spec fn columns(s: Seq<u8>, i: int) -> Option<Seq<u8>>
    decreases s.len() - 3 * i + 3
{
    if i < 0 || s.len() - 3 * i < 2 || (s[3 * i] == 32 && s[3 * i + 1] == 32) { Some(Seq::empty()) }
    else if !is_hex(s[3 * i]) || !is_hex(s[3 * i + 1]) || (s.len() - 3 * i > 2 && s[3 * i + 2] != 32) { None }
    else {
        match columns(s, i + 1) {
            None => None,
            Some(t) => Some(seq![(hexv(s[3 * i]) * 16 + hexv(s[3 * i + 1])) as u8] + t),
        }
    }
}

// the first occurrence, or the length
spec fn first(s: Seq<u8>, c: u8, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { s.len() as int } else if s[i] == c { i } else { first(s, c, i + 1) }
}

proof fn lemma_first(s: Seq<u8>, c: u8, i: int)
    requires 0 <= i <= s.len()
    ensures
        i <= first(s, c, i) <= s.len(),
        first(s, c, i) < s.len() ==> s[first(s, c, i)] == c,
        forall|j: int| i <= j < first(s, c, i) ==> s[j] != c,
    decreases s.len() - i
{
    if i < s.len() && s[i] != c { lemma_first(s, c, i + 1); }
}

proof fn lemma_first_is(s: Seq<u8>, c: u8, k: int)
    requires 0 <= k <= s.len(), k < s.len() ==> s[k] == c, forall|j: int| 0 <= j < k ==> s[j] != c
    ensures first(s, c, 0) == k
{
    lemma_first(s, c, 0);
}

// columns of the array in one read of the parser
spec const SPAN: int = 192;
spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }

// the rest of a line after the second delimiter of the head: the array up to a bar, then anything
spec fn array(s: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len()
{
    let blk = s.take(least(SPAN, s.len() as int));
    let bar = first(blk, 124, 0);
    match columns(blk.take(bar), 0) {
        None => None,
        Some(t) => if bar < blk.len() || s.len() <= SPAN { Some(t) } else {
            match array(s.skip(SPAN)) {
                None => None,
                Some(u) => Some(t + u),
            }
        },
    }
}

spec fn tail_array(in_tail: bool, s: Seq<u8>) -> Option<Seq<u8>> { if in_tail { Some(Seq::empty()) } else { array(s) } }

proof fn lemma_array_empty(s: Seq<u8>)
    requires s.len() == 0
    ensures array(s) == Some(Seq::<u8>::empty())
{
    assert(array(s) matches Some(t) && t =~= Seq::<u8>::empty());
}

#[derive(Clone, Copy)]
enum PNum { Hex, Dec }
#[derive(Clone, Copy)]
enum PBody { Hex }

spec fn number(f: PNum, s: Seq<u8>) -> Option<(int, int)> {
    match f { PNum::Hex => hexsingle(s, 0, 0), PNum::Dec => decsingle(s, 0, 0) }
}

// "offset length": the two numbers and where the second one ends
spec fn head(fo: PNum, fs: PNum, s: Seq<u8>) -> Option<(int, int, int)> {
    match number(fo, s) {
        None => None,
        Some((o, n)) => if s[n] != 32 { None } else {
            match number(fs, s.skip(n + 1)) {
                None => None,
                Some((l, m)) => Some((n + m + 1, o, l)),
            }
        },
    }
}

// a line without its newline
spec fn record(fo: PNum, fs: PNum, line: Seq<u8>) -> Option<Rec> {
    match head(fo, fs, line.push(10)) {
        None => None,
        Some((k, o, l)) =>
            if k >= line.len() { Some(Rec { off: o as nat, span: l as nat, body: Seq::empty() }) }
            else if k + 3 <= line.len() && line[k] == 32 && line[k + 1] == 124 && line[k + 2] == 32 {
                match array(line.skip(k + 3)) {
                    None => None,
                    Some(b) => Some(Rec { off: o as nat, span: l as nat, body: b }),
                }
            } else { None },
    }
}

spec fn line_of(text: Seq<u8>) -> Seq<u8> { text.take(first(text, 10, 0)) }
spec fn after_line(text: Seq<u8>) -> Seq<u8> { text.skip(least(first(text, 10, 0) + 1, text.len() as int)) }

// the records of a text, up to the first line that is not one
spec fn records_of(fo: PNum, fs: PNum, text: Seq<u8>) -> Seq<Rec>
    decreases text.len()
    when true via records_of_decreases
{
    if text.len() == 0 { Seq::empty() }
    else {
        match record(fo, fs, line_of(text)) {
            None => Seq::empty(),
            Some(r) => seq![r] + records_of(fo, fs, after_line(text)),
        }
    }
}
#[via_fn]
proof fn records_of_decreases(fo: PNum, fs: PNum, text: Seq<u8>) {
    lemma_first(text, 10, 0);
}

// numbers have at most 15 hexadecimal digits
proof fn lemma_hexsingle(s: Seq<u8>, i: int, acc: int)
    requires 0 <= i <= 16, 0 <= acc, acc < pow2((4 * i) as nat)
    ensures hexsingle(s, i, acc) matches Some((v, n)) ==> 0 <= v < MAXNUM && i <= n < 16 && n < s.len() && (s[n] == 32 || s[n] == 10 || s[n] == 58)
    decreases s.len() - i
{
    if i < 16 && i < s.len() {
        if s[i] == 32 || s[i] == 10 || s[i] == 58 {
            lemma_pow2_60();
            if i < 15 { lemma_pow2_strictly_increases((4 * i) as nat, 60); }
        } else if is_hex(s[i]) {
            lemma_pow2_adds((4 * i) as nat, 4);
            lemma_pow2_60();
            assert(0 <= hexv(s[i]) < 16);
            assert(acc * 16 + hexv(s[i]) < pow2((4 * (i + 1)) as nat));
            lemma_hexsingle(s, i + 1, acc * 16 + hexv(s[i]));
        }
    }
}
proof fn lemma_pow2_60()
    ensures pow2(60) == MAXNUM, pow2(4) == 16, pow2(0) == 1
{
    lemma2_to64();
    lemma2_to64_rest();
}

proof fn lemma_decsingle(s: Seq<u8>, i: int, acc: int)
    requires 0 <= i, 0 <= acc < MAXNUM
    ensures decsingle(s, i, acc) matches Some((v, n)) ==> 0 <= v < MAXNUM && i <= n < s.len() && s[n] == 32 && (forall|j: int| i <= j < n ==> s[j] != 10)
    decreases s.len() - i
{
    if i < s.len() && 48 <= s[i] < 58 && acc * 10 + (s[i] - 48) < MAXNUM { lemma_decsingle(s, i + 1, acc * 10 + (s[i] - 48)); }
}

proof fn lemma_hexsingle_nl(s: Seq<u8>, i: int, acc: int)
    requires 0 <= i
    ensures hexsingle(s, i, acc) matches Some((v, n)) ==> (forall|j: int| i <= j < n ==> s[j] != 10)
    decreases s.len() - i
{
    if i < s.len() && i < 16 && is_hex(s[i]) { lemma_hexsingle_nl(s, i + 1, acc * 16 + hexv(s[i])); }
}

// nothing after the first newline matters
proof fn lemma_hexsingle_cut(s: Seq<u8>, t: Seq<u8>, i: int, acc: int, k: int)
    requires 0 <= i <= k < t.len(), k < s.len(), s[k] == 10, forall|j: int| 0 <= j <= k ==> s[j] == t[j]
    ensures hexsingle(s, i, acc) == hexsingle(t, i, acc)
    decreases k - i
{
    if i < k && i < 16 && is_hex(s[i]) { lemma_hexsingle_cut(s, t, i + 1, acc * 16 + hexv(s[i]), k); }
}
proof fn lemma_decsingle_cut(s: Seq<u8>, t: Seq<u8>, i: int, acc: int, k: int)
    requires 0 <= i <= k < t.len(), k < s.len(), s[k] == 10, forall|j: int| 0 <= j <= k ==> s[j] == t[j]
    ensures decsingle(s, i, acc) == decsingle(t, i, acc)
    decreases k - i
{
    if i < k && 48 <= s[i] < 58 { lemma_decsingle_cut(s, t, i + 1, acc * 10 + (s[i] - 48), k); }
}
proof fn lemma_number_cut(f: PNum, s: Seq<u8>, t: Seq<u8>, k: int)
    requires 0 <= k < t.len(), k < s.len(), s[k] == 10, forall|j: int| 0 <= j <= k ==> s[j] == t[j]
    ensures number(f, s) == number(f, t)
{
    match f { PNum::Hex => { lemma_hexsingle_cut(s, t, 0, 0, k); }, PNum::Dec => { lemma_decsingle_cut(s, t, 0, 0, k); } }
}
// a number ends before the first newline or at it
proof fn lemma_number(f: PNum, s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), s[k] == 10
    ensures number(f, s) matches Some((v, n)) ==> 0 <= v < MAXNUM && 0 <= n <= k && n < s.len()
{
    lemma_pow2_60();
    lemma_hexsingle(s, 0, 0);
    lemma_hexsingle_nl(s, 0, 0);
    lemma_decsingle(s, 0, 0);
}
proof fn lemma_head_cut(fo: PNum, fs: PNum, s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), s[k] == 10, forall|j: int| 0 <= j < k ==> s[j] != 10
    ensures
        head(fo, fs, s) == head(fo, fs, s.take(k).push(10)),
        head(fo, fs, s) matches Some((n, o, l)) ==> 0 <= n <= k && 0 <= o < MAXNUM && 0 <= l < MAXNUM,
{
    let t = s.take(k).push(10);
    lemma_number_cut(fo, s, t, k);
    lemma_number(fo, s, k);
    match number(fo, s) {
        Some((o, n)) => {
            if s[n] == 32 {
                assert(n < k);
                lemma_number_cut(fs, s.skip(n + 1), t.skip(n + 1), k - n - 1);
                lemma_number(fs, s.skip(n + 1), k - n - 1);
            }
        },
        None => {},
    }
}

// ---- the scalar parsers
//@fn src/text/parser/naive.rs is_valid_hex
//@subst `(b'0'..b':').contains(&x)` => `(b'0' <= x && x < b':')`
//@subst `(b'A'..b'G').contains(&x)` => `(b'A' <= x && x < b'G')`
//@subst `(b'a'..b'g').contains(&x)` => `(b'a' <= x && x < b'g')`
//@spec
    ensures res == is_hex(x)
//@end

//@fn src/text/parser/naive.rs to_hex
//@spec
    requires is_hex(x)
    ensures res == hexv(x), res < 16
//@entry
        proof { assert(x >= 65 && x < 103 ==> ((x - 65 + 10) as u8) & 0x0f == (if x < 71 { (x - 55) as u8 } else if x >= 97 { (x - 87) as u8 } else { ((x - 65 + 10) as u8) & 0x0f })) by(bit_vector); }
//@end

//@fn src/text/parser/naive.rs parse_hex_single_naive
//@subst `for (i, &x) in src[..16].iter().enumerate() {` => `for i in 0..16 { let x = src[i];`
//@subst `let mut hex = 0;` => `let mut hex: u64 = 0;`
//@spec
    requires src@.len() >= 16
    ensures
        res is None <==> hexsingle(src@, 0, 0) is None,
        res matches Some((v, n)) ==> hexsingle(src@, 0, 0) == Some((v as int, n as int)) && v < MAXNUM && n < 16,
//@entry
        proof { lemma_pow2_60(); lemma_hexsingle(src@, 0, 0); }
//@loop 1
            invariant
                src@.len() >= 16,
                hex < pow2((4 * i) as nat),
                hexsingle(src@, 0, 0) == hexsingle(src@, i as int, hex as int),
                hexsingle(src@, 0, 0) matches Some((v, n)) ==> 0 <= v < MAXNUM && n < 16,
//@before `hex = (hex << 4)`
            let ghost h0 = hex;
            proof {
                lemma_pow2_60();
                if i < 15 { lemma_pow2_strictly_increases((4 * i) as nat, 60); }
                lemma_pow2_adds((4 * i) as nat, 4);
                assert(forall|d: u64| h0 < 0x1000_0000_0000_0000 && d < 16 ==> (h0 << 4) | d == h0 * 16 + d) by(bit_vector);
            }
//@end

//@fn src/text/parser/mod.rs parse_hex_single
//@spec
    requires src@.len() >= 16
    ensures
        res is None <==> hexsingle(src@, 0, 0) is None,
        res matches Some((v, n)) ==> hexsingle(src@, 0, 0) == Some((v as int, n as int)) && v < MAXNUM && n < 16,
//@end

//@fn src/text/parser/naive.rs parse_dec_single
//@subst `for (i, &x) in src.iter().enumerate() {` => `for i in 0..src.len() { let x = src[i];`
//@subst `let mut n = 0;` => `let mut n: u64 = 0;`
//@subst `(b'0'..b':').contains(&x)` => `(b'0' <= x && x < b':')`
//@spec
    requires src@.len() >= 16
    ensures
        res is None <==> decsingle(src@, 0, 0) is None,
        res matches Some((v, n)) ==> decsingle(src@, 0, 0) == Some((v as int, n as int)) && v < MAXNUM && n < src@.len(),
//@entry
        proof { lemma_decsingle(src@, 0, 0); }
//@loop 1
            invariant
                n < MAXNUM,
                decsingle(src@, 0, 0) == decsingle(src@, i as int, n as int),
//@before `if n >> 60`
            proof { assert((n >> 60) != 0 <==> n >= 0x1000_0000_0000_0000) by(bit_vector); }
//@end

// the closure that looks for a delimiter in one read
//@closure src/text/parser/naive.rs parse_hex_body_naive 1
//@sig fn find_first_match(src: &[u8], c: u8) -> usize
//@subst `for (i, &x) in src[..4 * 48].iter().enumerate() {` => `for i in 0..4 * 48 { let x = src[i];`
//@spec
    requires src@.len() >= SPAN
    ensures res == first(src@.take(SPAN), c, 0), res <= SPAN
//@entry
        proof { lemma_first(src@.take(SPAN), c, 0); }
//@loop 1
            invariant
                src@.len() >= SPAN,
                forall|j: int| 0 <= j < i ==> src@[j] != c,
//@before `return i`
            proof { lemma_first_is(src@.take(SPAN), c, i as int); }
//@afterloop 1
        proof { lemma_first_is(src@.take(SPAN), c, SPAN); }
//@end

//@fn src/text/parser/naive.rs parse_hex_body_naive
//@dropstmt `let find_first_match`
//@subst `find_first_match(` => `find_first_match(src, ` *
//@subst `parse_len.min(scan_len)` => `min_usize(parse_len, scan_len)` *
//@subst `for (i, x) in src[..min_usize(parse_len, scan_len)].chunks(3).enumerate() {` => `let text = slice_subrange(src, 0, min_usize(parse_len, scan_len)); for i in 0..(text.len() + 2) / 3 { let x = slice_subrange(text, 3 * i, min_usize(3 * i + 3, text.len()));`
//@spec
    requires
        src@.len() >= SPAN,
        old(dst)@.len() >= 64,
    ensures
        final(dst)@.len() == old(dst)@.len(),
        ({
            let blk = src@.take(SPAN);
            let nl = first(blk, 10, 0);
            let bar = least(first(blk, 124, 0), nl);
            if is_in_tail { res matches Some(((a, b), n)) && a == nl && b == 0 && n == 0 }
            else {
                &&& res is None <==> columns(blk.take(bar), 0) is None
                &&& res matches Some(((a, b), n)) ==> a == nl && b == bar && n <= 64 && columns(blk.take(bar), 0) == Some(final(dst)@.take(n as int))
            }
        }),
//@entry
        proof { lemma_first(src@.take(SPAN), 10, 0); lemma_first(src@.take(SPAN), 124, 0); }
//@beforeloop 1
    let ghost t = src@.take(SPAN).take(parse_len as int);
    proof {
        assert(text@ =~= t);
        assert(columns(t, 0) matches Some(u) ==> u =~= dst@.take(0) + u);
    }
//@loop 1
            invariant_except_break
                n_elems == i,
            invariant
                !is_in_tail,
                parse_len == least(first(src@.take(SPAN), 124, 0), first(src@.take(SPAN), 10, 0)),
                parse_len <= SPAN,
                src@.len() >= SPAN,
                dst@.len() == old(dst)@.len(),
                dst@.len() >= 64,
                n_elems <= 64,
                text@ == t,
                t.len() == parse_len,
                t == src@.take(SPAN).take(parse_len as int),
                columns(t, 0) is None <==> columns(t, n_elems as int) is None,
                columns(t, 0) matches Some(u) ==> u =~= dst@.take(n_elems as int) + columns(t, n_elems as int)->0,
            ensures
                columns(t, n_elems as int) matches Some(u) && u.len() == 0,
//@before `dst[i] =`
            let ghost d0 = dst@;
            proof {
                let (h, l) = (hexv(x@[0]) as u8, hexv(x@[1]) as u8);
                assert((h << 4) | l == h * 16 + l) by(bit_vector) requires h < 16, l < 16;
            }
//@after `n_elems = i + 1;`
            proof {
                assert(dst@.take(i + 1) =~= d0.take(i as int).push(dst@[i as int]));
            }
//@exit
//@end

//@fn src/text/parser/mod.rs parse_hex_body
//@spec
    requires
        src@.len() >= SPAN,
        old(dst)@.len() >= 64,
    ensures
        final(dst)@.len() == old(dst)@.len(),
        ({
            let blk = src@.take(SPAN);
            let nl = first(blk, 10, 0);
            let bar = least(first(blk, 124, 0), nl);
            if is_in_tail { res matches Some(((a, b), n)) && a == nl && b == 0 && n == 0 }
            else {
                &&& res is None <==> columns(blk.take(bar), 0) is None
                &&& res matches Some(((a, b), n)) ==> a == nl && b == bar && n <= 64 && columns(blk.take(bar), 0) == Some(final(dst)@.take(n as int))
            }
        }),
//@end
