// ---- from the text of an expression to its tokens
// the characters that are left
#[verifier::external_body]
struct CharIter { it: std::iter::Peekable<std::vec::IntoIter<char>> }
impl CharIter {
    uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<char>)
        ensures
            old(self).rest().len() == 0 ==> res is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> res == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { self.it.next() }
    #[verifier::external_body]
    fn peek(&mut self) -> (res: Option<char>)
        ensures
            final(self).rest() == old(self).rest(),
            res == if old(self).rest().len() > 0 { Some(old(self).rest()[0]) } else { None },
    { self.it.peek().copied() }
}
#[verifier::external_body]
fn chars_of(s: &str) -> (res: CharIter) ensures res.rest() == s@ { CharIter { it: s.chars().collect::<Vec<_>>().into_iter().peekable() } }

// std: checked arithmetic, Option::filter and the classes of characters
#[verifier::external_body]
fn mul_checked(x: i64, y: i64) -> (res: Option<i64>) ensures res == if fits(x * y) { Some((x * y) as i64) } else { None } { x.checked_mul(y) }
#[verifier::external_body]
fn add_checked(x: i64, y: i64) -> (res: Option<i64>) ensures res == if fits(x + y) { Some((x + y) as i64) } else { None } { x.checked_add(y) }
#[verifier::external_body]
fn pow_int(x: i64, n: u32) -> (res: i64) requires fits(power(x as int, n as int)) ensures res == power(x as int, n as int) { x.pow(n) }
fn only_if<T>(x: Option<T>, c: bool) -> (res: Option<T>) ensures res == if c { x } else { None::<T> } { if c { x } else { None } }
spec fn in_span(c: char, a: char, b: char) -> bool { a as int <= c as int <= b as int }
spec fn is_digit(c: char) -> bool { in_span(c, '0', '9') }
spec fn is_upper(c: char) -> bool { in_span(c, 'A', 'Z') }
spec fn is_lower(c: char) -> bool { in_span(c, 'a', 'z') }
fn char_within(c: char, a: char, b: char) -> (res: bool) ensures res == in_span(c, a, b) { a as u32 <= c as u32 && c as u32 <= b as u32 }
#[verifier::external_body]
fn char_of(c: u32) -> (res: char) requires c < 0x80 ensures res as int == c { std::char::from_u32(c).unwrap() }

// an operator: how many characters it takes after the first
spec fn op_at(first: char, rest: Seq<char>) -> Option<(Token, int)> {
    if first == '<' || first == '>' {
        if rest.len() == 0 { None }
        else if rest[0] == first { Some((Op(first), 1)) }
        else if rest[0] == '=' { Some((Op(if first == '>' { 'G' } else { 'L' }), 1)) }
        else { Some((Op(if first == '>' { 'g' } else { 'l' }), 0)) }
    } else { Some((Op(first), 0)) }
}
// std: `?` on an option
//@fn src/eval.rs parse_op
//@sig fn parse_op(first: char, it: &mut CharIter) -> Option<Token>
//@subst `*it.peek()?` => `it.peek()?`
//@spec
    ensures match op_at(first, old(it).rest()) {
        Some((t, n)) => res == Some(t) && final(it).rest() == old(it).rest().skip(n),
        None => res is None,
    }
//@entry
        proof { assert(it.rest().skip(0) =~= it.rest()); }
//@end

// the value of a digit; None: a filler
spec fn digit_of(c: char) -> Option<int> {
    if is_digit(c) { Some(c as int - '0' as int) }
    else if in_span(c, 'a', 'f') { Some(c as int - 'a' as int + 10) }
    else if in_span(c, 'A', 'F') { Some(c as int - 'A' as int + 10) }
    else { None }
}
// the characters of numbers to the base
spec fn in_number(c: char, base: int) -> bool { c == '_' || is_digit(c) || base == 16 && digit_of(c) is Some }
//@fn src/eval.rs parse_char
//@subst `c.is_ascii_digit()` => `char_within(c, '0', '9')`
//@subst `('a'..='f').contains(&c)` => `char_within(c, 'a', 'f')`
//@subst `('A'..='F').contains(&c)` => `char_within(c, 'A', 'F')`
//@spec
    ensures res == if c == '_' { Some((true, 0i64)) } else { match digit_of(c) { Some(d) => Some((false, d as i64)), None => None } }
//@end

// SI and binary units
spec fn unit(n: int, rest: Seq<char>) -> (int, int) { if rest.len() > 1 && rest[1] == 'i' { (power(1024, n), 2) } else { (power(1000, n), 1) } }
proof fn lemma_power(x: int, n: int)
    requires x == 1000 || x == 1024, 0 <= n <= 6
    ensures 1 <= power(x, n) <= 0x1000_0000_0000_0000
{
    reveal_with_fuel(power, 8);
    assert(power(1000, 6) == 1000000000000000000) by (compute);
    assert(power(1000, 5) == 1000000000000000) by (compute);
    assert(power(1000, 4) == 1000000000000) by (compute);
    assert(power(1000, 3) == 1000000000) by (compute);
    assert(power(1000, 2) == 1000000) by (compute);
    assert(power(1000, 1) == 1000) by (compute);
    assert(power(1024, 6) == 0x1000_0000_0000_0000) by (compute);
    assert(power(1024, 5) == 0x4_0000_0000_0000) by (compute);
    assert(power(1024, 4) == 0x100_0000_0000) by (compute);
    assert(power(1024, 3) == 0x4000_0000) by (compute);
    assert(power(1024, 2) == 0x10_0000) by (compute);
    assert(power(1024, 1) == 0x400) by (compute);
}
//@fn src/eval.rs parse_prefix
//@sig fn parse_prefix(n: u32, it: &mut CharIter) -> Option<i64>
//@subst `Some(&'i')` => `Some('i')`
//@subst `prefix_base.pow(n)` => `pow_int(prefix_base, n)`
//@spec
    requires n <= 6
    ensures
        old(it).rest().len() == 0 ==> res is None,
        old(it).rest().len() > 0 ==> {
            let u = unit(n as int, old(it).rest());
            res == Some(u.0 as i64) && fits(u.0) && u.0 >= 1 && final(it).rest() == old(it).rest().skip(u.1)
        },
//@entry
        proof {
            lemma_power(1000, n as int);
            lemma_power(1024, n as int);
            if it.rest().len() > 1 { assert(it.rest().skip(1).skip(1) =~= it.rest().skip(2)); }
        }
//@end

spec fn lower(c: char) -> int { if is_upper(c) { c as int - 'A' as int + 'a' as int } else { c as int } }
// the first digit, the base, and how many characters are before that digit
spec fn head(first: char, rest: Seq<char>) -> Option<(char, int, int)> {
    if first != '0' { Some((first, 10, 0)) }
    else if rest.len() == 0 { Some((first, 8, 0)) }
    else {
        let x = lower(rest[0]);
        let base: int = if x == 'b' as int { 2 } else if x == 'o' as int { 8 } else if x == 'd' as int { 10 } else if x == 'x' as int { 16 } else { 0 };
        if base == 0 { Some((first, 8, 0)) } else if rest.len() == 1 { None } else { Some((rest[1], base, 2)) }
    }
}
spec fn run_of(s: Seq<char>, base: int) -> int
    decreases s.len()
{ if s.len() == 0 || !in_number(s[0], base) { 0 } else { 1 + run_of(s.skip(1), base) } }
proof fn lemma_run_of(s: Seq<char>, base: int, j: int)
    requires 0 <= j <= s.len(), forall|i: int| 0 <= i < j ==> in_number(#[trigger] s[i], base), j == s.len() || !in_number(s[j], base)
    ensures run_of(s, base) == j
    decreases j
{
    if j > 0 {
        assert(in_number(s[0], base));
        assert forall|i: int| 0 <= i < j - 1 implies in_number(#[trigger] s.skip(1)[i], base) by { assert(in_number(s[i + 1], base)); }
        lemma_run_of(s.skip(1), base, j - 1);
    }
}
// fillers are between digits
spec fn filled(w: Seq<char>) -> bool
    decreases w.len()
{ w.len() == 0 || filled(w.drop_last()) && !(w.last() == '_' && (w.len() == 1 || w[w.len() - 2] == '_')) }
spec fn digits_of(w: Seq<char>) -> Seq<i64>
    decreases w.len()
{ if w.len() == 0 { Seq::empty() } else if w.last() == '_' { digits_of(w.drop_last()) } else { digits_of(w.drop_last()).push((digit_of(w.last())->0) as i64) } }
spec fn value_of(d: Seq<i64>, base: int) -> int
    decreases d.len()
{ if d.len() == 0 { 0 } else { value_of(d.drop_last(), base) * base + d.last() } }
spec fn is_word(w: Seq<char>, base: int) -> bool {
    &&& filled(w) && w.last() != '_'
    &&& forall|i: int| 0 <= i < digits_of(w).len() ==> #[trigger] digits_of(w)[i] < base
}
spec fn unit_of(c: int) -> int {
    if c == 'k' as int { 1 } else if c == 'm' as int { 2 } else if c == 'g' as int { 3 } else if c == 't' as int { 4 } else if c == 'e' as int { 6 } else { 0 }
}
// a number that starts with the character first: its value, and how many characters it takes after the first
#[verifier::opaque]
spec fn number(first: char, rest: Seq<char>) -> Option<(int, int)> {
    match head(first, rest) {
        None => None,
        Some((c, base, n)) => {
            let run = run_of(rest.skip(n), base);
            let w = seq![c] + rest.skip(n).take(run);
            let v = value_of(digits_of(w), base);
            let more = rest.skip(n + run);
            if !in_number(c, base) || !is_word(w, base) || v > i64::MAX { None }
            else if more.len() > 0 && unit_of(lower(more[0])) > 0 {
                let u = unit(unit_of(lower(more[0])), more);
                if v * u.0 > i64::MAX { None } else { Some((v * u.0, n + run + u.1)) }
            } else { Some((v, n + run)) }
        }
    }
}
proof fn lemma_no_number(first: char, rest: Seq<char>)
    ensures match head(first, rest) { None => number(first, rest) is None, Some((c, base, n)) => !in_number(c, base) ==> number(first, rest) is None }
{ reveal(number); }
proof fn lemma_number(first: char, rest: Seq<char>, j: int, w: Seq<char>)
    requires
        head(first, rest) matches Some((c, base, n)) && in_number(c, base) && j == run_of(rest.skip(n), base) && w == seq![c] + rest.skip(n).take(j),
    ensures ({
        let (c, base, n) = head(first, rest)->0;
        let v = value_of(digits_of(w), base);
        let more = rest.skip(n + j);
        let z = if more.len() > 0 { unit_of(lower(more[0])) } else { 0 };
        let u = unit(z, more);
        &&& number(first, rest) is Some ==> is_word(w, base) && v <= i64::MAX
        &&& is_word(w, base) && v <= i64::MAX && z == 0 ==> number(first, rest) == Some((v, n + j))
        &&& is_word(w, base) && v <= i64::MAX && z > 0 ==> number(first, rest) == if v * u.0 > i64::MAX { None } else { Some((v * u.0, n + j + u.1)) }
    })
{ reveal(number); }
proof fn lemma_digits(w: Seq<char>, base: int)
    requires forall|i: int| 0 <= i < w.len() ==> in_number(#[trigger] w[i], base)
    ensures forall|i: int| 0 <= i < digits_of(w).len() ==> 0 <= #[trigger] digits_of(w)[i] < 16
    decreases w.len()
{
    if w.len() > 0 {
        assert(in_number(w[w.len() - 1], base));
        assert forall|i: int| 0 <= i < w.drop_last().len() implies in_number(#[trigger] w.drop_last()[i], base) by { assert(in_number(w[i], base)); }
        lemma_digits(w.drop_last(), base);
        let d = digits_of(w.drop_last());
        assert forall|i: int| 0 <= i < digits_of(w).len() implies 0 <= #[trigger] digits_of(w)[i] < 16 by { if i < d.len() { assert(digits_of(w)[i] == d[i]); } }
    }
}
// no filler in front
proof fn lemma_head(w: Seq<char>)
    requires w.len() > 0
    ensures filled(w) ==> w[0] != '_'
    decreases w.len()
{
    if w.len() > 1 { lemma_head(w.drop_last()); }
}
// the value does not get smaller
proof fn lemma_value_of(d: Seq<i64>, base: int, k: int)
    requires 0 <= k <= d.len(), base >= 1, forall|i: int| 0 <= i < d.len() ==> 0 <= #[trigger] d[i]
    ensures 0 <= value_of(d.take(k), base) <= value_of(d, base)
    decreases d.len()
{
    if d.len() == 0 { assert(d.take(k) =~= d); }
    else {
        let e = d.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies 0 <= #[trigger] e[i] by { assert(0 <= d[i]); }
        assert(0 <= d[d.len() - 1]);
        if k == d.len() {
            assert(d.take(k) =~= d);
            lemma_value_of(e, base, e.len() as int);
            assert(e.take(e.len() as int) =~= e);
            assert(value_of(e, base) * base >= 0) by (nonlinear_arith) requires value_of(e, base) >= 0, base >= 1;
        } else {
            assert(d.take(k) =~= e.take(k));
            lemma_value_of(e, base, k);
            assert(value_of(e, base) * base >= value_of(e, base)) by (nonlinear_arith) requires value_of(e, base) >= 0, base >= 1;
        }
    }
}

//@closure src/eval.rs parse_val 1
//@sig fn tolower(c: char) -> char
//@subst `c.is_ascii_uppercase()` => `char_within(c, 'A', 'Z')`
//@subst `std::char::from_u32(c as u32 - ('A' as u32) + ('a' as u32)).unwrap()` => `char_of(c as u32 - ('A' as u32) + ('a' as u32))`
//@spec
    ensures res as int == lower(c)
//@end
//@closure src/eval.rs parse_val 2
//@sig fn push_skip(skip: bool, is_skip: &mut bool, is_valid: &mut bool)
//@subst `is_valid` => `*is_valid` *
//@subst `is_skip` => `*is_skip` *
//@spec
    ensures *final(is_skip) == skip, *final(is_valid) == (*old(is_valid) && !(*old(is_skip) && skip))
//@end
//@closure src/eval.rs parse_val 3
//@sig fn push_digit(digit: i64, digits: &mut Vec<i64>)
//@spec
    ensures final(digits)@ == old(digits)@.push(digit)
//@end
//@closure src/eval.rs parse_val 4
//@sig fn parse_digit(c: char, num_base: i64) -> Option<(bool, i64)>
//@subst `parse_char(c).filter(|_|` => `only_if(parse_char(c),`
//@subst `c.is_ascii_alphabetic()` => `(char_within(c, 'a', 'z') || char_within(c, 'A', 'Z'))`
//@spec
    ensures
        in_number(c, num_base as int) ==> res == Some((c == '_', if c == '_' { 0i64 } else { (digit_of(c)->0) as i64 })),
        !in_number(c, num_base as int) ==> res is None,
//@end

//@fn src/eval.rs parse_val
//@sig fn parse_val(first: char, it: &mut CharIter) -> Option<Token>
//@dropstmt `let tolower`
//@dropstmt `let mut push_skip`
//@dropstmt `let mut push_digit`
//@dropstmt `let parse_char`
//@subst `push_skip(skip);` => `push_skip(skip, &mut is_skip, &mut is_valid);` *
//@subst `push_digit(digit);` => `push_digit(digit, &mut digits);` *
//@subst `let (first, num_base) =` => `let (lead, num_base): (char, i64) =`
//@subst `let mut digits = Vec::new();` => `let mut digits: Vec<i64> = Vec::new();`
//@subst `Some(&x)` => `Some(x)` *
//@subst `parse_char(first)?` => `parse_digit(lead, num_base)?`
//@subst `while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {` => `loop { let (skip, digit) = match parse_digit(it.peek().unwrap_or('\n'), num_base) { Some(x) => x, None => { break; } };`
//@subst `for &digit in &digits {` => `for k in 0..digits.len() { let digit = digits[k];`
//@subst `val.checked_mul(num_base)?.checked_add(digit)?` => `add_checked(mul_checked(val, num_base)?, digit)?`
//@subst `val.checked_mul(scaler)?` => `mul_checked(val, scaler)?`
//@spec
    ensures match number(first, old(it).rest()) {
        Some((v, n)) => res == Some(Val(v as i64)) && final(it).rest() == old(it).rest().skip(n) && 0 <= v <= i64::MAX,
        None => res is None,
    }
//@entry
        let ghost r0 = it.rest();
        proof { lemma_no_number(first, r0); }
//@before `let (mut is_skip, mut is_valid)`
        let ghost h = head(first, r0);
        let ghost (n, base) = ((h->0).2, num_base as int);
        let ghost s = r0.skip(n);
        proof {
            assert(h is Some && (h->0).0 == lead && (h->0).1 == base);
            if r0.len() > 1 { assert(r0.skip(1).skip(1) =~= r0.skip(2)); }
            assert(r0.skip(0) =~= r0);
            assert(it.rest() =~= s);
        }
//@beforeloop 1
        let ghost mut j: int = 0;
        let ghost mut w = seq![lead];
        proof {
            assert(w.drop_last() =~= Seq::<char>::empty());
            assert(filled(w.drop_last()));
            assert(digits_of(w.drop_last()) =~= Seq::<i64>::empty());
            assert(s.skip(0) =~= s);
            assert(seq![lead] + s.take(0) =~= w);
        }
//@loop 1
            invariant
                r0 == old(it).rest(), h == head(first, r0), h is Some, h->0 == (lead, base, n), base == num_base, s == r0.skip(n), 0 <= n <= r0.len(),
                2 <= base <= 16, in_number(lead, base),
                0 <= j <= s.len(), it.rest() == s.skip(j), w == seq![lead] + s.take(j),
                forall|i: int| 0 <= i < j ==> in_number(#[trigger] s[i], base),
                // a filler in front is kept as a digit, and refused at the end
                lead != '_' ==> digits@ == digits_of(w),
                is_skip == (w.last() == '_'), is_valid == filled(w),
            ensures
                j == s.len() || !in_number(s[j], base),
            decreases s.len() - j
//@loopend 1
            proof {
                let w1 = w.push(s[j]);
                assert(s.take(j + 1) =~= s.take(j).push(s[j]));
                assert(w1 =~= seq![lead] + s.take(j + 1));
                assert(w1.drop_last() =~= w);
                assert(s.skip(j).skip(1) =~= s.skip(j + 1));
                w = w1;
                j = j + 1;
            }
//@afterloop 1
        proof {
            lemma_run_of(s, base, j);
            assert(r0.skip(n).skip(j) =~= r0.skip(n + j));
            assert forall|i: int| 0 <= i < w.len() implies in_number(#[trigger] w[i], base) by { if i > 0 { assert(w[i] == s[i - 1]); } }
            lemma_digits(w, base);
            lemma_head(w);
            lemma_number(first, r0, j, w);
        }
//@loop 2
            invariant
                r0 == old(it).rest(), digits@ == digits_of(w), base == num_base, 2 <= base <= 16,
                forall|i: int| 0 <= i < digits.len() ==> 0 <= #[trigger] digits@[i] < 16,
                forall|i: int| 0 <= i < k ==> #[trigger] digits@[i] < base,
                val == value_of(digits@.take(k as int), base), val >= 0,
                number(first, r0) is Some ==> is_word(w, base) && value_of(digits_of(w), base) <= i64::MAX,
//@loopstart 2
            proof {
                assert(digits@.take(k + 1).drop_last() =~= digits@.take(k as int));
                lemma_value_of(digits@, base, k + 1);
                assert(val * base <= val * base + digits@[k as int]);
                assert(val * base >= 0) by (nonlinear_arith) requires val >= 0, base >= 2;
                assert(digits_of(w)[k as int] == digits@[k as int]);
            }
//@afterloop 2
        proof {
            assert(digits@.take(digits.len() as int) =~= digits@);
            assert(is_word(w, base));
        }
        let ghost more = it.rest();
        let ghost z = if more.len() > 0 { unit_of(lower(more[0])) } else { 0 };
        proof { assert(more == r0.skip(n + j)); }
//@before `Some(Val(`
        proof {
            if z > 0 {
                lemma_power(1000, z);
                lemma_power(1024, z);
                assert(it.rest() == more.skip(unit(z, more).1));
                assert(scaler == unit(z, more).0);
                assert(more.skip(unit(z, more).1) =~= r0.skip(n + j + unit(z, more).1));
                assert(val * scaler >= 0) by (nonlinear_arith) requires val >= 0, scaler >= 1;
                assert(it.rest() == r0.skip(n + j + unit(z, more).1));
            } else {
                assert(scaler == 1);
                assert(val * 1 == val);
                assert(it.rest() == r0.skip(n + j));
            }
        }
//@tail `Some(Val(`
        it.peek();      // changes nothing; the verifier takes final(it) from the last use of it, and loses it in guards of a match
        proof {
            let q = number(first, r0);
            assert(q is Some);
            if z > 0 { assert(q == Some((val * unit(z, more).0, n + j + unit(z, more).1))); } else { assert(q == Some((val as int, n + j))); }
            assert(it.rest() == r0.skip((q->0).1));
        }
//@end

// the variables there are
//@struct src/eval.rs VarAttr
#[verifier::external_body]
struct Vars { map: std::collections::HashMap<Vec<u8>, VarAttr> }
impl Vars {
    uninterp spec fn lookup(&self, name: Seq<u8>) -> Option<VarAttr>;
    #[verifier::external_body]
    fn get(&self, name: &[u8]) -> (res: Option<&VarAttr>)
        ensures res is Some <==> self.lookup(name@) is Some, res matches Some(x) ==> self.lookup(name@) == Some(*x)
    { self.map.get(name) }
}
// the last variable that has the name
spec fn find_var<const N: usize>(l: Seq<([u8; N], VarAttr)>, name: Seq<u8>) -> Option<VarAttr>
    decreases l.len()
{ if l.len() == 0 { None } else if l.last().0@ == name { Some(l.last().1) } else { find_var(l.drop_last(), name) } }
// a map of the pairs
#[verifier::external_body]
fn vars_of<const N: usize, const M: usize>(l: [([u8; N], VarAttr); M]) -> (res: Vars)
    ensures forall|name: Seq<u8>| #[trigger] res.lookup(name) == find_var(l@, name)
{ Vars { map: l.into_iter().map(|(x, y)| (x.to_vec(), y)).collect() } }
spec fn names_of(vars: Option<&Vars>) -> spec_fn(Seq<u8>) -> Option<VarAttr> { |n: Seq<u8>| match vars { Some(v) => v.lookup(n), None => None } }
spec fn in_name(c: char) -> bool { is_lower(c) || is_upper(c) || is_digit(c) }
spec fn name_run(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 || !in_name(s[0]) { 0 } else { 1 + name_run(s.skip(1)) } }
proof fn lemma_name_run(s: Seq<char>, j: int)
    requires 0 <= j <= s.len(), forall|i: int| 0 <= i < j ==> in_name(#[trigger] s[i]), j == s.len() || !in_name(s[j])
    ensures name_run(s) == j
    decreases j
{
    if j > 0 {
        assert(in_name(s[0]));
        assert forall|i: int| 0 <= i < j - 1 implies in_name(#[trigger] s.skip(1)[i]) by { assert(in_name(s[i + 1])); }
        lemma_name_run(s.skip(1), j - 1);
    }
}
spec fn bytes_of(w: Seq<char>) -> Seq<u8> { w.map_values(|c: char| c as u8) }
// the longest name, and how many characters it takes after the first
spec fn variable(first: char, rest: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>) -> Option<(Token, int)> {
    let n = name_run(rest);
    match names(bytes_of(seq![first] + rest.take(n))) {
        Some(a) => Some((if a.is_array { VarArr(a.id) } else { Var(a.id, 1) }, n)),
        None => None,
    }
}
fn vec_of<T>(x: T) -> (v: Vec<T>) ensures v@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
//@fn src/eval.rs parse_var
//@sig fn parse_var(first: char, vars: Option<&Vars>, it: &mut CharIter) -> Option<Token>
//@subst `vec![first as u8]` => `vec_of(first as u8)`
//@subst `*x as u8` => `x as u8` ?
//@spec
    requires is_lower(first) || is_upper(first)
    ensures match variable(first, old(it).rest(), names_of(vars)) {
        Some((t, n)) => res == Some(t) && final(it).rest() == old(it).rest().skip(n),
        None => res is None,
    }
//@entry
        let ghost s = it.rest();
        let ghost mut j: int = 0;
        let ghost mut w = seq![first];
//@beforeloop 1
        proof {
            assert(v@ =~= bytes_of(w));
            assert(s.skip(0) =~= s);
            assert(seq![first] + s.take(0) =~= w);
        }
//@loop 1
            invariant
                s == old(it).rest(), 0 <= j <= s.len(), it.rest() == s.skip(j), w == seq![first] + s.take(j), v@ == bytes_of(w),
                forall|i: int| 0 <= i < j ==> in_name(#[trigger] s[i]),
            ensures
                j == s.len() || !in_name(s[j]),
            decreases s.len() - j
//@loopend 1
            proof {
                let w1 = w.push(s[j]);
                assert(s.take(j + 1) =~= s.take(j).push(s[j]));
                assert(w1 =~= seq![first] + s.take(j + 1));
                assert(s.skip(j).skip(1) =~= s.skip(j + 1));
                assert(v@ =~= bytes_of(w1));
                w = w1;
                j = j + 1;
            }
//@afterloop 1
        proof { lemma_name_run(s, j); }
//@end

// how many characters are left is known where a token ends
proof fn lemma_run_len(s: Seq<char>, base: int)
    ensures 0 <= run_of(s, base) <= s.len()
    decreases s.len()
{ if s.len() > 0 && in_number(s[0], base) { lemma_run_len(s.skip(1), base); } }
proof fn lemma_name_len(s: Seq<char>)
    ensures 0 <= name_run(s) <= s.len()
    decreases s.len()
{ if s.len() > 0 && in_name(s[0]) { lemma_name_len(s.skip(1)); } }
proof fn lemma_number_len(first: char, rest: Seq<char>)
    ensures number(first, rest) matches Some((v, n)) ==> 0 <= n <= rest.len()
{
    reveal(number);
    if let Some((c, base, n)) = head(first, rest) { lemma_run_len(rest.skip(n), base); }
}

spec fn is_white(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
spec fn is_bracket(c: char) -> bool { c == '(' || c == ')' || c == '[' || c == ']' }
spec fn is_sign(c: char) -> bool { c == '+' || c == '-' || c == '~' || c == '!' || c == '*' || c == '/' || c == '%' || c == '&' || c == '|' || c == '^' || c == '<' || c == '>' || c == '@' }
// the token at the head, if it is not white, and how many characters it takes
#[verifier::opaque]
spec fn token_at(s: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>) -> Option<(Option<Token>, int)> {
    let (x, r) = (s[0], s.skip(1));
    if is_white(x) { Some((None, 1)) }
    else if is_bracket(x) { Some((Some(Paren(x)), 1)) }
    else if is_sign(x) { match op_at(x, r) { Some((t, n)) => Some((Some(t), n + 1)), None => None } }
    else if is_digit(x) { match number(x, r) { Some((v, n)) => Some((Some(Val(v as i64)), n + 1)), None => None } }
    else if is_lower(x) || is_upper(x) { match variable(x, r, names) { Some((t, n)) => Some((Some(t), n + 1)), None => None } }
    else { None }
}
proof fn lemma_token_len(s: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>)
    requires s.len() > 0
    ensures token_at(s, names) matches Some((t, n)) ==> 1 <= n <= s.len()
{
    reveal(token_at);
    lemma_number_len(s[0], s.skip(1));
    lemma_name_len(s.skip(1));
}
spec fn opt_seq(t: Option<Token>) -> Seq<Token> { match t { Some(x) => seq![x], None => Seq::empty() } }
// the tokens of a text; None: it has something else in it
spec fn lexed(s: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>) -> Option<Seq<Token>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        match token_at(s, names) {
            Some((t, n)) => if 1 <= n <= s.len() { match lexed(s.skip(n), names) { Some(r) => Some(opt_seq(t) + r), None => None } } else { None },
            None => None,
        }
    }
}
spec fn enclosed(t: Seq<Token>) -> Seq<Token> { seq![Paren('(')] + t + seq![Paren(')')] }
// one token more
proof fn lemma_lexed(s: Seq<char>, k: int, acc: Seq<Token>, names: spec_fn(Seq<u8>) -> Option<VarAttr>, all: Option<Seq<Token>>)
    requires
        0 <= k < s.len(),
        all == match lexed(s.skip(k), names) { Some(r) => Some(acc + r), None => None },
    ensures
        token_at(s.skip(k), names) is None ==> all is None,
        token_at(s.skip(k), names) matches Some((t, n)) ==> {
            &&& 1 <= n <= s.len() - k
            &&& s.skip(k).skip(n) == s.skip(k + n)
            &&& all == match lexed(s.skip(k + n), names) { Some(r) => Some((acc + opt_seq(t)) + r), None => None }
        }
{
    lemma_token_len(s.skip(k), names);
    if let Some((t, n)) = token_at(s.skip(k), names) {
        assert(s.skip(k).skip(n) =~= s.skip(k + n));
        if let Some(r) = lexed(s.skip(k + n), names) { assert(acc + (opt_seq(t) + r) =~= (acc + opt_seq(t)) + r); }
    }
}
//@fn src/eval.rs tokenize
//@sig fn tokenize(input: &str, vars: Option<&Vars>) -> Result<Vec<Token>>
//@optctx
//@subst `vec![Paren('(')]` => `vec_of(Paren('('))`
//@subst `input.chars().peekable()` => `chars_of(input)`
//@subst `continue;` => `` ?
//@spec
    ensures match lexed(input@, names_of(vars)) { Some(t) => res is Ok && res->Ok_0@ == enclosed(t), None => res is Err }
//@entry
        let ghost s = input@;
        let ghost names = names_of(vars);
        let ghost all = lexed(s, names);
        let ghost mut k: int = 0;
        let ghost mut acc: Seq<Token> = Seq::empty();
        proof {
            assert(s.skip(0) =~= s);
            if all is Some { assert(acc + all->0 =~= all->0); }
        }
//@beforeloop 1
        proof { assert(tokens@ =~= seq![Paren('(')] + acc); }
//@loop 1
            invariant
                s == input@, names == names_of(vars), all == lexed(s, names), 0 <= k <= s.len(), it.rest() == s.skip(k),
                tokens@ == seq![Paren('(')] + acc,
                all == match lexed(s.skip(k), names) { Some(r) => Some(acc + r), None => None },
            ensures
                k == s.len(),
            decreases s.len() - k
//@loopstart 1
            let ghost q = token_at(s.skip(k), names);
            proof {
                if k < s.len() {
                    reveal(token_at);
                    lemma_lexed(s, k, acc, names, all);
                    assert(s.skip(k).skip(1) =~= s.skip(k + 1));
                    if is_sign(s[k]) { if let Some((t, n)) = op_at(s[k], s.skip(k + 1)) { assert(s.skip(k + 1).skip(n) =~= s.skip(k + 1 + n)); } }
                    if is_digit(s[k]) { if let Some((t, n)) = number(s[k], s.skip(k + 1)) { lemma_number_len(s[k], s.skip(k + 1)); assert(s.skip(k + 1).skip(n) =~= s.skip(k + 1 + n)); } }
                    if is_lower(s[k]) || is_upper(s[k]) { if let Some((t, n)) = variable(s[k], s.skip(k + 1), names) { lemma_name_len(s.skip(k + 1)); assert(s.skip(k + 1).skip(n) =~= s.skip(k + 1 + n)); } }
                }
            }
//@loopend 1
            proof {
                let (t, n) = q->0;
                let acc1 = acc + opt_seq(t);
                assert(tokens@ =~= seq![Paren('(')] + acc1);
                acc = acc1;
                k = k + n;
            }
//@afterloop 1
        proof {
            assert(s.skip(k) =~= Seq::<char>::empty());
            assert(acc + Seq::<Token>::empty() =~= acc);
            assert(all == Some(acc));
        }
//@before `Ok(tokens)`
        proof { assert(tokens@ =~= enclosed(acc)); }
//@end
