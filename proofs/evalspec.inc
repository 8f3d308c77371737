// ---- integer expressions in reverse Polish notation
//@struct src/eval.rs Token
impl Clone for Token { fn clone(&self) -> (res: Self) ensures res == *self { match self { Token::Val(x) => Token::Val(*x), Token::Op(x) => Token::Op(*x), Token::Prefix(x) => Token::Prefix(*x), Token::Paren(x) => Token::Paren(*x), Token::Var(x, y) => Token::Var(*x, *y), Token::VarArr(x) => Token::VarArr(*x) } } }
impl Copy for Token {}
use Token::*;

// 64-bit signed arithmetic, two's complement
spec fn fits(x: int) -> bool { i64::MIN <= x <= i64::MAX }
spec fn n64(x: int) -> i64 { if fits(x) { x as i64 } else { ((x + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000) as i64 } }
// division toward zero, as in C
spec fn quot(x: int, y: int) -> int
    recommends y != 0
{
    let q = (if x < 0 { -x } else { x }) / (if y < 0 { -y } else { y });
    if (x < 0) == (y < 0) { q } else { -q }
}
spec fn power(x: int, y: int) -> int
    decreases y
{ if y <= 0 { 1 } else { x * power(x, y - 1) } }

#[verifier::external_body]
fn add64(x: i64, y: i64) -> (res: i64) ensures res == n64(x + y) { x.wrapping_add(y) }
#[verifier::external_body]
fn sub64(x: i64, y: i64) -> (res: i64) ensures res == n64(x - y) { x.wrapping_sub(y) }
#[verifier::external_body]
fn mul64(x: i64, y: i64) -> (res: i64) ensures res == n64(x * y) { x.wrapping_mul(y) }
#[verifier::external_body]
fn neg64(x: i64) -> (res: i64) ensures res == n64(-x) { x.wrapping_neg() }
#[verifier::external_body]
fn div64(x: i64, y: i64) -> (res: i64) requires y != 0 ensures res == n64(quot(x as int, y as int)) { x.wrapping_div(y) }
#[verifier::external_body]
fn rem64(x: i64, y: i64) -> (res: i64) requires y != 0 ensures res == n64(x - y * quot(x as int, y as int)) { x.wrapping_rem(y) }
#[verifier::external_body]
fn pow64(x: i64, y: u32) -> (res: i64) ensures res == n64(power(x as int, y as int)) { x.wrapping_pow(y) }

// a shift by a negative number is one in the other direction
spec fn shl(x: i64, y: i64) -> i64 { if y >= 0 { x << ((y as usize) & 0x3f) } else { x >> ((n64(-y) as usize) & 0x3f) } }
spec fn shr(x: i64, y: i64) -> i64 { if y >= 0 { x >> ((y as usize) & 0x3f) } else { x << ((n64(-y) as usize) & 0x3f) } }
spec fn op_value(c: char, x: i64, y: i64) -> Option<i64> {
    if c == '+' { Some(n64(x + y)) }
    else if c == '-' { Some(n64(x - y)) }
    else if c == '#' { Some(n64(-n64(x + y))) }
    else if c == '~' { Some(n64(-n64(x - y))) }
    else if c == '*' { Some(n64(x * y)) }
    else if c == '/' { if y == 0 { None } else { Some(n64(quot(x as int, y as int))) } }
    else if c == '%' { if y == 0 { None } else { Some(n64(x - y * quot(x as int, y as int))) } }
    else if c == '&' { Some(x & y) }
    else if c == '|' { Some(x | y) }
    else if c == '^' { Some(x ^ y) }
    else if c == '<' { Some(shl(x, y)) }
    else if c == '>' { Some(shr(x, y)) }
    else if c == 'g' { Some(if x > y { 1 } else { 0 }) }
    else if c == 'G' { Some(if x >= y { 1 } else { 0 }) }
    else if c == 'l' { Some(if x < y { 1 } else { 0 }) }
    else if c == 'L' { Some(if x <= y { 1 } else { 0 }) }
    else if c == '@' { Some(if y >= 0 { n64(power(x as int, (y as u32) as int)) } else { 0 }) }
    else { None }
}
spec fn is_binary(c: char) -> bool { c == '+' || c == '-' || c == '#' || c == '~' || c == '*' || c == '/' || c == '%' || c == '&' || c == '|' || c == '^' || c == '<' || c == '>' || c == '@' || c == 'g' || c == 'G' || c == 'l' || c == 'L' }
spec fn prefix_value(c: char, x: i64) -> i64 {
    if c == '-' { n64(-x) } else if c == '!' { !x } else if c == 'G' { if x >= 0 { 1 } else { 0 } } else { x }
}
spec fn is_prefix(c: char) -> bool { c == '+' || c == '-' || c == '!' || c == 'G' }

//@fn src/eval.rs apply_prefix
//@subst `x.wrapping_neg()` => `neg64(x)`
//@subst `(x >= 0) as i64` => `(if x >= 0 { 1i64 } else { 0i64 })`
//@subst `_ => panic!("unknown op: {c:?}")` => `_ => { unreached_panic(); 0 }`
//@spec
    requires is_prefix(c)
    ensures res == prefix_value(c, x)
//@end
//@fn src/eval.rs apply_op
//@subst `x.wrapping_add(y).wrapping_neg()` => `neg64(add64(x, y))`
//@subst `x.wrapping_sub(y).wrapping_neg()` => `neg64(sub64(x, y))`
//@subst `x.wrapping_add(y)` => `add64(x, y)`
//@subst `x.wrapping_sub(y)` => `sub64(x, y)`
//@subst `x.wrapping_mul(y)` => `mul64(x, y)`
//@subst `x.wrapping_div(y)` => `div64(x, y)`
//@subst `x.wrapping_rem(y)` => `rem64(x, y)`
//@subst `(y.wrapping_neg() as usize)` => `(neg64(y) as usize)` *
//@subst `x.wrapping_pow(y as u32)` => `pow64(x, y as u32)`
//@subst `(x > y) as i64` => `(if x > y { 1i64 } else { 0i64 })`
//@subst `(x >= y) as i64` => `(if x >= y { 1i64 } else { 0i64 })`
//@subst `(x < y) as i64` => `(if x < y { 1i64 } else { 0i64 })`
//@subst `(x <= y) as i64` => `(if x <= y { 1i64 } else { 0i64 })`
//@subst `_ => panic!("unknown op: {c:?}")` => `_ => { unreached_panic(); 0 }`
//@spec
    requires is_binary(c), y == 0 ==> c != '/' && c != '%'
    ensures op_value(c, x, y) == Some(res)
//@entry
        proof {
            let u = y as usize;
            let v = n64(-y) as usize;
            assert(u & 0x3f < 64) by (bit_vector);
            assert(v & 0x3f < 64) by (bit_vector);
        }
//@end

// ---- the stack machine
// what a variable or an element of an array is; None: it can not be read
spec fn step(t: (Token, usize), st: Seq<i64>, env: spec_fn(usize, i64) -> Option<i64>) -> Option<Seq<i64>> {
    match t.0 {
        Val(v) => Some(st.push(v)),
        Prefix(op) => if st.len() < 1 { None } else { Some(st.drop_last().push(prefix_value(op, st.last()))) },
        Op(op) => if st.len() < 2 { None } else {
            match op_value(op, st[st.len() - 2], st.last()) { Some(v) => Some(st.drop_last().drop_last().push(v)), None => None }
        },
        Var(id, c) => if t.1 == 0 {
            match env(id, 0) { Some(v) => Some(st.push(n64(c * v))), None => None }
        } else if st.len() < 1 { None } else {
            match env(id, st.last()) { Some(v) => Some(st.drop_last().push(n64(c * v))), None => None }
        },
        VarArr(id) => if st.len() < 1 { None } else {
            match env(id, st.last()) { Some(v) => Some(st.drop_last().push(v)), None => None }
        },
        _ => None,
    }
}
spec fn run(t: Seq<(Token, usize)>, st: Seq<i64>, env: spec_fn(usize, i64) -> Option<i64>) -> Option<Seq<i64>>
    decreases t.len()
{
    if t.len() == 0 { Some(st) } else { match step(t[0], st, env) { Some(s) => run(t.skip(1), s, env), None => None } }
}
// the value of an expression
spec fn rpn_value(t: Seq<(Token, usize)>, env: spec_fn(usize, i64) -> Option<i64>) -> Option<i64> {
    match run(t, Seq::empty(), env) { Some(s) => if s.len() == 1 { Some(s[0]) } else { None }, None => None }
}
// the height of the stack after each token; None: starved or not a token of the notation. ids: the variables there are
spec fn height(t: Seq<(Token, usize)>, n: int, ids: spec_fn(usize) -> bool) -> Option<int>
    decreases t.len()
{
    if t.len() == 0 { Some(n) } else {
        let m: Option<int> = match t[0].0 {
            Val(_) => Some(n + 1),
            Prefix(op) => if n < 1 || !is_prefix(op) { None } else { Some(n) },
            Op(op) => if n < 2 || !is_binary(op) { None } else { Some(n - 1) },
            Var(id, _) => if !ids(id) { None } else if t[0].1 == 0 { Some(n + 1) } else if n < 1 { None } else { Some(n) },
            VarArr(id) => if !ids(id) || n < 1 { None } else { Some(n) },
            _ => None,
        };
        match m { Some(k) => height(t.skip(1), k, ids), None => None }
    }
}
spec fn rpn_ok(t: Seq<(Token, usize)>, ids: spec_fn(usize) -> bool) -> bool { height(t, 0, ids) == Some(1int) }

// the closure that reads variables (what it captures is in self)
trait Getter {
    spec fn wf(&self) -> bool;
    spec fn ids(&self) -> spec_fn(usize) -> bool;
    spec fn env(&self) -> spec_fn(usize, i64) -> Option<i64>;
    // an error has been found
    spec fn failed(&self) -> bool;
    // what it reads from, before anything is read
    type Base;
    spec fn base(&self) -> Self::Base;
    // what is borrowed is the same afterwards
    type Gfin;
    #[verifier::prophetic]
    spec fn gfin(&self) -> Self::Gfin;
    fn get(&mut self, id: usize, val: i64) -> (res: i64)
        requires old(self).wf(), old(self).ids()(id)
        ensures
            final(self).wf(), final(self).ids() == old(self).ids(), final(self).env() == old(self).env(), final(self).base() == old(self).base(), final(self).gfin() == old(self).gfin(),
            old(self).failed() ==> final(self).failed(),
            !final(self).failed() ==> old(self).env()(id, val) == Some(res);
}

// std: v.last_mut().context(..), v.pop().context(..)
#[verifier::external_body]
fn last_of<'a>(v: &'a mut Vec<i64>) -> (res: Result<&'a mut i64>)
    ensures
        res is Err <==> old(v).len() == 0,
        res matches Ok(x) ==> *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)),
        res is Err ==> final(v)@ == old(v)@,
{ v.last_mut().ok_or(any_error()) }
fn top(v: &mut Vec<i64>) -> (res: Result<i64>)
    ensures
        res is Err <==> old(v).len() == 0,
        res matches Ok(x) ==> x == old(v)@.last() && final(v)@ == old(v)@.drop_last(),
{ v.pop().ok_or(any_error()) }

//@fn src/eval.rs eval_rpn
//@sig fn eval_rpn<F: Getter>(tokens: &Vec<(Token, usize)>, get: &mut F) -> Result<i64>
//@dropstmt `let starved`
//@dropstmt `let mut get = get`
//@subst `let mut stack = Vec::new();` => `let mut stack: Vec<i64> = Vec::new();`
//@subst `for &token in tokens {` => `for k in 0..tokens.len() { let token = tokens[k];`
//@subst `stack.last_mut().context(starved)?` => `last_of(&mut stack)?` *
//@subst `stack.pop().context(starved)?` => `top(&mut stack)?` *
//@subst `c.wrapping_mul(get(id, 0))` => `mul64(c, get.get(id, 0))`
//@subst `c.wrapping_mul(get(id, *x))` => `mul64(c, get.get(id, *x))`
//@subst `*x = get(id, *x);` => `*x = get.get(id, *x);`
//@subst `return Err(anyhow!("division by zero found in evaluating expression"));` => `return Err(any_error());`
//@subst `return Err(anyhow!("unexpected token: {:?}", token));` => `return Err(any_error());`
//@subst `return Err(anyhow!(starved));` => `return Err(any_error());`
//@spec
    requires old(get).wf(), rpn_ok(tokens@, old(get).ids())
    ensures
        final(get).wf(), final(get).ids() == old(get).ids(), final(get).env() == old(get).env(), final(get).base() == old(get).base(), final(get).gfin() == old(get).gfin(),
        old(get).failed() ==> final(get).failed(),
        res matches Ok(v) ==> !final(get).failed() ==> rpn_value(tokens@, old(get).env()) == Some(v),
        // no value: a division by zero
        res is Err ==> !final(get).failed() ==> rpn_value(tokens@, old(get).env()) is None,
//@entry
        let ghost g0 = *get;
        let ghost env = get.env();
        let ghost ids = get.ids();
//@beforeloop 1
        proof { assert(tokens@.skip(0) =~= tokens@); assert(stack@ =~= Seq::<i64>::empty()); }
//@loop 1
            invariant
                get.wf(), get.ids() == ids, get.env() == env, get.base() == g0.base(), get.gfin() == g0.gfin(),
                g0 == *old(get), ids == g0.ids(), env == g0.env(),
                g0.failed() ==> get.failed(),
                height(tokens@.skip(k as int), stack.len() as int, ids) == Some(1int),
                !get.failed() ==> run(tokens@, Seq::empty(), env) == run(tokens@.skip(k as int), stack@, env),
//@loopstart 1
            let ghost st = stack@;
            let ghost was = get.failed();
            proof { assert(tokens@.skip(k as int).skip(1) =~= tokens@.skip(k + 1)); assert(tokens@.skip(k as int)[0] == tokens@[k as int]); }
//@loopend 1
            proof { assert(!get.failed() ==> step(token, st, env) == Some(stack@)); }
//@afterloop 1
        proof { assert(tokens@.skip(tokens.len() as int) =~= Seq::<(Token, usize)>::empty()); }
//@end
