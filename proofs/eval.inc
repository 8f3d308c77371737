// ---- from the tokens of an expression to its reverse Polish notation
// how tightly an operator binds: the order of the C language, with the power operator between the shifts and the comparisons
spec fn binds(c: char) -> int {
    if c == '*' || c == '/' || c == '%' { 8 }
    else if c == '+' || c == '-' || c == '#' || c == '~' { 7 }
    else if c == '<' || c == '>' { 6 }
    else if c == '@' { 5 }
    else if c == 'g' || c == 'G' || c == 'l' || c == 'L' { 4 }
    else if c == '&' { 3 }
    else if c == '^' { 2 }
    else { 1 }
}
// what comes between a token and the operator c that follows belongs to c: it binds tighter, or both are powers (those associate to the right)
spec fn yields(t: Token, c: char) -> bool {
    match t {
        Prefix(_) => c == '@',
        Op(q) => (q == '@' && c == '@') || binds(c) > binds(q),
        _ => true,
    }
}
//@fn src/eval.rs is_unary
//@spec
    ensures res == (c == '+' || c == '-' || c == '!' || c == '~')
//@end
//@fn src/eval.rs is_muldiv
//@spec
    ensures res == (c == '*' || c == '/' || c == '%')
//@end
//@fn src/eval.rs is_addsub
//@spec
    ensures res == (c == '+' || c == '-' || c == '#' || c == '~')
//@end
//@fn src/eval.rs is_shift
//@spec
    ensures res == (c == '<' || c == '>')
//@end
//@fn src/eval.rs is_cmp
//@spec
    ensures res == (c == 'g' || c == 'G' || c == 'l' || c == 'L')
//@end
//@fn src/eval.rs is_pow
//@spec
    ensures res == (c == '@')
//@end
//@fn src/eval.rs precedence
//@spec
    ensures
        // only the order counts
        res == binds(c)
//@end
//@fn src/eval.rs latter_precedes
//@subst `match (former, latter)` => `match (*former, *latter)`
//@subst `(&Prefix(_), &Op(latter))` => `(Prefix(_), Op(latter))`
//@subst `(&Op(former), &Op(latter))` => `(Op(former), Op(latter))`
//@spec
    requires latter is Op
    ensures res == yields(*former, latter->Op_0)
//@end

// an expression
enum Ast { Leaf(Token), Idx(usize, Box<Ast>), Group(Box<Ast>), Pre(char, Box<Ast>), Bin(char, Box<Ast>, Box<Ast>) }
use Ast::*;
// its text
spec fn flat(e: Ast) -> Seq<Token>
    decreases e
{
    match e {
        Leaf(t) => seq![t],
        Idx(id, x) => seq![VarArr(id), Paren('[')] + flat(*x) + seq![Paren(']')],
        Group(x) => seq![Paren('(')] + flat(*x) + seq![Paren(')')],
        Pre(c, x) => seq![Prefix(c)] + flat(*x),
        Bin(c, l, r) => flat(*l) + seq![Op(c)] + flat(*r),
    }
}
// and what it means
spec fn value(e: Ast, env: spec_fn(usize, i64) -> Option<i64>) -> Option<i64>
    decreases e
{
    match e {
        Leaf(Val(v)) => Some(v),
        Leaf(Var(id, c)) => match env(id, 0) { Some(v) => Some(n64(c * v)), None => None },
        Leaf(_) => None,
        Idx(id, x) => match value(*x, env) { Some(i) => env(id, i), None => None },
        Group(x) => value(*x, env),
        Pre(c, x) => match value(*x, env) { Some(v) => Some(prefix_value(c, v)), None => None },
        Bin(c, l, r) => match (value(*l, env), value(*r, env)) { (Some(x), Some(y)) => op_value(c, x, y), _ => None },
    }
}
spec fn post(e: Ast) -> Seq<Token>
    decreases e
{
    match e {
        Leaf(t) => seq![t],
        Idx(id, x) => post(*x).push(VarArr(id)),
        Group(x) => post(*x),
        Pre(c, x) => post(*x).push(Prefix(c)),
        Bin(c, l, r) => (post(*l) + post(*r)).push(Op(c)),
    }
}
// the operators on the right edge of e take what they have before the operator c that follows e
spec fn right_ok(e: Ast, c: char) -> bool
    decreases e
{
    match e {
        Bin(q, _, r) => !yields(Op(q), c) && right_ok(*r, c),
        Pre(p, x) => !yields(Prefix(p), c) && right_ok(*x, c),
        _ => true,
    }
}
// the operators on the left edge of e take what they have before the token t in front of e
spec fn left_ok(t: Token, e: Ast) -> bool
    decreases e
{
    match e { Bin(q, l, _) => yields(t, q) && left_ok(t, *l), _ => true }
}
// grouped by the precedence and the associativity of the operators
spec fn grouped(e: Ast) -> bool
    decreases e
{
    match e {
        Leaf(t) => t is Val || t is Var,
        Idx(_, x) => grouped(*x),
        Group(x) => grouped(*x),
        Pre(p, x) => grouped(*x) && left_ok(Prefix(p), *x),
        Bin(q, l, r) => q != '!' && q != '~' && grouped(*l) && grouped(*r) && right_ok(*l, q) && left_ok(Op(q), *r),
    }
}

// ---- one token after another
spec fn ends_operand(t: Token) -> bool { t is Val || t is Var || t == Paren(')') || t == Paren(']') }
spec fn starts_operand(t: Token) -> bool { t is Val || t is Var || t is VarArr || t is Prefix || t == Paren('(') }
spec fn opens(t: Token) -> bool { t is Op || t is Prefix || t == Paren('(') || t == Paren('[') }
spec fn follows(a: Token, b: Token) -> bool {
    if ends_operand(a) { b is Op && b != Op('!') && b != Op('~') || b == Paren(')') || b == Paren(']') }
    else if a is VarArr { b == Paren('[') }
    else { opens(a) && starts_operand(b) }
}
spec fn in_order(t: Seq<Token>) -> bool { forall|i: int| 0 < i < t.len() ==> follows(#[trigger] t[i - 1], t[i]) }

// an operator is a unary one where no operand is in front of it
spec fn marked_at(t: Seq<Token>, i: int) -> Token
    decreases i
{
    if i <= 0 { t[i] } else {
        match t[i] {
            Op(y) => if (y == '+' || y == '-' || y == '!' || y == '~') && opens(marked_at(t, i - 1)) { Prefix(if y == '~' { '!' } else { y }) } else { t[i] },
            _ => t[i],
        }
    }
}
spec fn marked(t: Seq<Token>) -> Seq<Token> { Seq::new(t.len(), |i: int| marked_at(t, i)) }
//@fn src/eval.rs mark_prefices
//@sig fn mark_prefices(tokens: &mut Vec<Token>) -> Option<()>
//@subst `let mut tokens = tokens;` => `let mut at: usize = 0;`
//@subst `while tokens.len() > 1 {` => `while tokens.len() - at > 1 {`
//@subst `let (former, latter) = tokens.split_at_mut(1);` => ``
//@subst `former[0]` => `tokens[at]`
//@subst `latter[0]` => `tokens[at + 1]` *
//@subst `tokens = latter;` => `at += 1;`
//@spec
    requires forall|i: int| 0 <= i < old(tokens).len() ==> !(#[trigger] old(tokens)@[i] is Prefix), old(tokens).len() > 0
    ensures
        res is Some <==> in_order(marked(old(tokens)@)),
        res is Some ==> final(tokens)@ == marked(old(tokens)@),
//@entry
        let ghost t = tokens@;
        let ghost m = marked(t);
//@loop 1
            invariant
                t == old(tokens)@, m == marked(t), tokens.len() == t.len(), at < t.len(),
                forall|i: int| 0 <= i < t.len() ==> !(#[trigger] t[i] is Prefix),
                forall|i: int| 0 <= i <= at ==> tokens@[i] == #[trigger] m[i],
                forall|i: int| at < i < t.len() ==> #[trigger] tokens@[i] == t[i],
                forall|i: int| 0 < i <= at ==> follows(#[trigger] m[i - 1], m[i]),
            decreases tokens.len() - at
//@loopstart 1
            proof {
                assert(tokens@[at as int] == m[at as int]);
                assert(tokens@[at + 1] == t[at + 1]);
                assert(m[at + 1] == marked_at(t, at + 1));
                assert(m[at + 1 - 1] == m[at as int]);
                assert(!in_order(m) || follows(m[at + 1 - 1], m[at + 1]));
            }
//@loopend 1
            proof { assert(tokens@[at as int] == m[at as int]); }
//@afterloop 1
        proof { assert(tokens@ =~= m); }
//@end

// ---- the stack of operators; left[i]: the left operand of the i-th, which is in the notation already
spec fn ltoks(s: Seq<(Token, usize)>, l: Seq<Ast>) -> Seq<Token>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        ltoks(s.drop_last(), l.drop_last()) + if s.last().0 is Op { flat(l.last()).push(s.last().0) } else { seq![s.last().0] }
    }
}
spec fn lpost(s: Seq<(Token, usize)>, l: Seq<Ast>) -> Seq<Token>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        lpost(s.drop_last(), l.drop_last()) + if s.last().0 is Op { post(l.last()) } else { Seq::empty() }
    }
}
spec fn entry_ok(s: Seq<(Token, usize)>, l: Seq<Ast>, i: int) -> bool {
    &&& s[i].1 <= lpost(s.take(i + 1), l.take(i + 1)).len() + if s[i].0 is Op { 0int } else { 1 }
    &&& match s[i].0 {
        Op(c) => c != '!' && c != '~' && grouped(l[i]) && right_ok(l[i], c) && (i > 0 ==> left_ok(s[i - 1].0, l[i]) && yields(s[i - 1].0, c)),
        Paren(c) => c == '(' || c == '[' && i > 0 && s[i - 1].0 is VarArr,
        VarArr(_) => i > 0 && (i + 1 < s.len() ==> s[i + 1].0 == Paren('[')),
        Prefix(_) => i > 0,
        _ => false,
    }
}
spec fn stack_ok(s: Seq<(Token, usize)>, l: Seq<Ast>) -> bool { s.len() == l.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] entry_ok(s, l, i) }
spec fn optoks(e: Option<Ast>) -> Seq<Token> { match e { Some(x) => flat(x), None => Seq::empty() } }
spec fn oppost(e: Option<Ast>) -> Seq<Token> { match e { Some(x) => post(x), None => Seq::empty() } }
// the notation, without the positions that come with it
spec fn bare(t: Seq<(Token, usize)>) -> Seq<Token> { t.map_values(|x: (Token, usize)| x.0) }
spec fn scalars(t: Seq<(Token, usize)>) -> bool { forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 is Var ==> t[i].1 == 0 }
spec fn sorting(t: Seq<Token>, rpn: Seq<(Token, usize)>, s: Seq<(Token, usize)>, l: Seq<Ast>, cur: Option<Ast>) -> bool {
    &&& stack_ok(s, l)
    &&& ltoks(s, l) + optoks(cur) == t
    &&& bare(rpn) == lpost(s, l) + oppost(cur)
    &&& scalars(rpn)
    &&& cur matches Some(e) ==> grouped(e) && (s.len() > 0 ==> left_ok(s.last().0, e) && !(s.last().0 is VarArr))
}
// so far: the last token is an operand's or on the stack
spec fn sorted_upto(t: Seq<Token>, s: Seq<(Token, usize)>, cur: Option<Ast>) -> bool {
    &&& t.len() > 0 && ends_operand(t.last()) ==> cur is Some
    &&& t.len() > 0 && !ends_operand(t.last()) ==> cur is None && s.len() > 0 && s.last().0 == t.last()
    &&& t.len() == 0 ==> cur is None && s.len() == 0
    &&& s.len() == 0 && t.len() > 0 ==> cur is Some && cur->0 is Group
    &&& cur matches Some(e) ==> e is Leaf || e is Group || e is Idx
}

proof fn lemma_post_len(e: Ast)
    ensures post(e).len() >= 1
    decreases e
{
    match e { Leaf(_) => {}, Idx(_, x) => {}, Group(x) => lemma_post_len(*x), Pre(_, x) => {}, Bin(_, l, r) => {} }
}
proof fn lemma_stack_pop(s: Seq<(Token, usize)>, l: Seq<Ast>)
    requires stack_ok(s, l), s.len() > 0
    ensures stack_ok(s.drop_last(), l.drop_last())
{
    let (s1, l1) = (s.drop_last(), l.drop_last());
    assert forall|i: int| 0 <= i < s1.len() implies #[trigger] entry_ok(s1, l1, i) by {
        assert(entry_ok(s, l, i));
        assert(s1.take(i + 1) =~= s.take(i + 1));
        assert(l1.take(i + 1) =~= l.take(i + 1));
    }
}
proof fn lemma_stack_push(s: Seq<(Token, usize)>, l: Seq<Ast>, x: (Token, usize), e: Ast)
    requires
        stack_ok(s, l),
        s.len() > 0 && s.last().0 is VarArr ==> x.0 == Paren('['),
        entry_ok(s.push(x), l.push(e), s.len() as int),
    ensures
        stack_ok(s.push(x), l.push(e)),
        ltoks(s.push(x), l.push(e)) == ltoks(s, l) + if x.0 is Op { flat(e).push(x.0) } else { seq![x.0] },
        lpost(s.push(x), l.push(e)) == lpost(s, l) + if x.0 is Op { post(e) } else { Seq::empty() },
{
    let (s1, l1) = (s.push(x), l.push(e));
    assert(s1.drop_last() =~= s);
    assert(l1.drop_last() =~= l);
    assert forall|i: int| 0 <= i < s1.len() implies #[trigger] entry_ok(s1, l1, i) by {
        if i < s.len() {
            assert(entry_ok(s, l, i));
            assert(s1.take(i + 1) =~= s.take(i + 1));
            assert(l1.take(i + 1) =~= l.take(i + 1));
        }
    }
}
// the operator on the top gets its operand
spec fn reduced(t: Token, l: Ast, e: Ast) -> Ast {
    match t { Op(c) => Bin(c, Box::new(l), Box::new(e)), Prefix(c) => Pre(c, Box::new(e)), _ => e }
}
proof fn lemma_reduce(t: Seq<Token>, rpn: Seq<(Token, usize)>, s: Seq<(Token, usize)>, l: Seq<Ast>, e: Ast, n: usize)
    requires sorting(t, rpn, s, l, Some(e)), s.len() > 0, s.last().0 is Op || s.last().0 is Prefix
    ensures
        sorting(t, rpn.push((s.last().0, n)), s.drop_last(), l.drop_last(), Some(reduced(s.last().0, l.last(), e))),
{
    let (s1, l1) = (s.drop_last(), l.drop_last());
    let (x, a) = (s.last(), l.last());
    let e1 = reduced(x.0, a, e);
    lemma_stack_pop(s, l);
    assert(entry_ok(s, l, s.len() - 1));
    let r1 = rpn.push((x.0, n));
    assert(bare(r1) =~= bare(rpn).push(x.0));
    assert(ltoks(s1, l1) + flat(e1) =~= t);
    assert(bare(r1) =~= lpost(s1, l1) + post(e1));
    assert forall|i: int| 0 <= i < r1.len() && (#[trigger] r1[i]).0 is Var implies r1[i].1 == 0 by { if i < rpn.len() { assert(r1[i] == rpn[i]); } }
    if s1.len() > 0 {
        assert(entry_ok(s, l, s.len() - 2));
        assert(s1.last() == s[s.len() - 2]);
    }
}

proof fn lemma_operand(t: Seq<Token>, r: Seq<(Token, usize)>, s: Seq<(Token, usize)>, l: Seq<Ast>, x: Token)
    requires sorting(t, r, s, l, None), x is Val || x is Var, s.len() > 0 ==> !(s.last().0 is VarArr)
    ensures sorting(t.push(x), r.push((x, 0)), s, l, Some(Leaf(x)))
{
    let r1 = r.push((x, 0));
    assert(bare(r1) =~= bare(r).push(x));
    assert(lpost(s, l) + post(Leaf(x)) =~= (lpost(s, l) + oppost(None)).push(x));
    assert(ltoks(s, l) + flat(Leaf(x)) =~= (ltoks(s, l) + optoks(None)).push(x));
    assert forall|i: int| 0 <= i < r1.len() && (#[trigger] r1[i]).0 is Var implies r1[i].1 == 0 by { if i < r.len() { assert(r1[i] == r[i]); } }
}
proof fn lemma_open(t: Seq<Token>, r: Seq<(Token, usize)>, s: Seq<(Token, usize)>, l: Seq<Ast>, x: Token, n: usize)
    requires
        sorting(t, r, s, l, None), n == r.len() + 1,
        x is Prefix || x is VarArr || x == Paren('(') || x == Paren('[') && s.len() > 0 && s.last().0 is VarArr,
        s.len() > 0 && s.last().0 is VarArr ==> x == Paren('['),
        s.len() == 0 ==> x == Paren('('),
    ensures sorting(t.push(x), r, s.push((x, n)), l.push(Leaf(x)), None)
{
    let (s1, l1) = (s.push((x, n)), l.push(Leaf(x)));
    assert(s1.take(s1.len() as int) =~= s1);
    assert(l1.take(l1.len() as int) =~= l1);
    assert(s1.drop_last() =~= s);
    assert(l1.drop_last() =~= l);
    assert(bare(r).len() == r.len());
    lemma_stack_push(s, l, (x, n), Leaf(x));
    assert(ltoks(s1, l1) + optoks(None) =~= (ltoks(s, l) + optoks(None)).push(x));
    assert(lpost(s1, l1) + oppost(None) =~= lpost(s, l) + oppost(None));
}
proof fn lemma_op(t: Seq<Token>, r: Seq<(Token, usize)>, s: Seq<(Token, usize)>, l: Seq<Ast>, e: Ast, c: char, n: usize)
    requires sorting(t, r, s, l, Some(e)), n == r.len(), c != '!', c != '~', right_ok(e, c), s.len() > 0 ==> yields(s.last().0, c)
    ensures sorting(t.push(Op(c)), r, s.push((Op(c), n)), l.push(e), None)
{
    let (s1, l1) = (s.push((Op(c), n)), l.push(e));
    assert(s1.take(s1.len() as int) =~= s1);
    assert(l1.take(l1.len() as int) =~= l1);
    assert(s1.drop_last() =~= s);
    assert(l1.drop_last() =~= l);
    assert(bare(r).len() == r.len());
    lemma_stack_push(s, l, (Op(c), n), e);
    assert(ltoks(s1, l1) + optoks(None) =~= (ltoks(s, l) + flat(e)).push(Op(c)));
    assert(lpost(s1, l1) + oppost(None) =~= lpost(s, l) + post(e));
}
proof fn lemma_group(t: Seq<Token>, r: Seq<(Token, usize)>, s: Seq<(Token, usize)>, l: Seq<Ast>, e: Ast)
    requires sorting(t, r, s, l, Some(e)), s.len() > 0, s.last().0 == Paren('(')
    ensures sorting(t.push(Paren(')')), r, s.drop_last(), l.drop_last(), Some(Group(Box::new(e))))
{
    let (s1, l1) = (s.drop_last(), l.drop_last());
    let e1 = Group(Box::new(e));
    lemma_stack_pop(s, l);
    assert(ltoks(s1, l1) + flat(e1) =~= t.push(Paren(')')));
    assert(lpost(s1, l1) + post(e1) =~= lpost(s, l) + post(e));
    if s1.len() > 0 { assert(entry_ok(s, l, s.len() - 2)); assert(s1.last() == s[s.len() - 2]); }
}
proof fn lemma_index(t: Seq<Token>, r: Seq<(Token, usize)>, s: Seq<(Token, usize)>, l: Seq<Ast>, e: Ast, n: usize)
    requires sorting(t, r, s, l, Some(e)), s.len() > 1, s.last().0 == Paren('['), s[s.len() - 2].0 is VarArr
    ensures sorting(t.push(Paren(']')), r.push((s[s.len() - 2].0, n)), s.drop_last().drop_last(), l.drop_last().drop_last(), Some(Idx(s[s.len() - 2].0->VarArr_0, Box::new(e))))
{
    let (s1, l1) = (s.drop_last(), l.drop_last());
    let (s2, l2) = (s1.drop_last(), l1.drop_last());
    let x = s[s.len() - 2].0;
    let e1 = Idx(x->VarArr_0, Box::new(e));
    let r1 = r.push((x, n));
    lemma_stack_pop(s, l);
    lemma_stack_pop(s1, l1);
    assert(ltoks(s1, l1) =~= ltoks(s2, l2).push(x));
    assert(ltoks(s2, l2) + flat(e1) =~= t.push(Paren(']')));
    assert(bare(r1) =~= bare(r).push(x));
    assert(lpost(s1, l1) =~= lpost(s2, l2));
    assert(lpost(s, l) =~= lpost(s1, l1));
    assert(lpost(s2, l2) + post(e1) =~= (lpost(s, l) + post(e)).push(x));
    assert forall|i: int| 0 <= i < r1.len() && (#[trigger] r1[i]).0 is Var implies r1[i].1 == 0 by { if i < r.len() { assert(r1[i] == r[i]); } }
    if s2.len() > 0 { assert(entry_ok(s, l, s.len() - 3)); assert(s2.last() == s[s.len() - 3]); }
}
// ---- brackets
// the brackets that are open after t; None: one is closed by another type, or something follows the outermost pair
spec fn open_in(t: Seq<Token>) -> Option<Seq<char>>
    decreases t.len()
{
    if t.len() == 0 { Some(Seq::empty()) } else {
        match open_in(t.drop_last()) {
            None => None,
            Some(b) => {
                let x = t.last();
                if t.len() > 1 && b.len() == 0 { None }
                else if x == Paren('(') { Some(b.push('(')) }
                else if x == Paren('[') { Some(b.push('[')) }
                else if x == Paren(')') { if b.len() > 0 && b.last() == '(' { Some(b.drop_last()) } else { None } }
                else if x == Paren(']') { if b.len() > 0 && b.last() == '[' { Some(b.drop_last()) } else { None } }
                else { Some(b) }
            }
        }
    }
}
spec fn balanced(t: Seq<Token>) -> bool { open_in(t) == Some(Seq::<char>::empty()) }
proof fn lemma_open_in(t: Seq<Token>, n: int)
    requires 0 <= n <= t.len(), open_in(t.take(n)) is None
    ensures open_in(t) is None
    decreases t.len() - n
{
    if n < t.len() {
        assert(t.take(n + 1).drop_last() =~= t.take(n));
        lemma_open_in(t, n + 1);
    } else { assert(t.take(n) =~= t); }
}
// an expression has its brackets balanced
proof fn lemma_balanced_in(t: Seq<Token>, e: Ast)
    requires grouped(e), t.len() > 0, open_in(t) matches Some(b) && b.len() > 0
    ensures open_in(t + flat(e)) == open_in(t)
    decreases e
{
    match e {
        Leaf(x) => { assert((t + flat(e)).drop_last() =~= t); }
        Idx(id, x) => {
            let (t1, t2) = (t.push(VarArr(id)), t.push(VarArr(id)).push(Paren('[')));
            assert(t1.drop_last() =~= t);
            assert(open_in(t1) == open_in(t));
            assert(t2.drop_last() =~= t1);
            assert(open_in(t2) == Some(open_in(t)->0.push('[')));
            lemma_balanced_in(t2, *x);
            assert(t + flat(e) =~= (t2 + flat(*x)).push(Paren(']')));
            assert((t2 + flat(*x)).push(Paren(']')).drop_last() =~= t2 + flat(*x));
            assert(open_in(t2)->0.drop_last() =~= open_in(t)->0);
        }
        Group(x) => {
            let t1 = t.push(Paren('('));
            assert(t1.drop_last() =~= t);
            lemma_balanced_in(t1, *x);
            assert(t + flat(e) =~= (t1 + flat(*x)).push(Paren(')')));
            assert((t1 + flat(*x)).push(Paren(')')).drop_last() =~= t1 + flat(*x));
            assert(open_in(t1)->0.drop_last() =~= open_in(t)->0);
        }
        Pre(c, x) => {
            let t1 = t.push(Prefix(c));
            assert(t1.drop_last() =~= t);
            lemma_balanced_in(t1, *x);
            assert(t + flat(e) =~= t1 + flat(*x));
        }
        Bin(c, l, r) => {
            let t1 = t + flat(*l);
            let t2 = t1.push(Op(c));
            lemma_balanced_in(t, *l);
            assert(t2.drop_last() =~= t1);
            lemma_balanced_in(t2, *r);
            assert(t + flat(e) =~= t2 + flat(*r));
        }
    }
}
proof fn lemma_balanced(e: Ast)
    requires grouped(e)
    ensures balanced(flat(Group(Box::new(e))))
{
    let t = seq![Paren('(')];
    assert(t.drop_last() =~= Seq::<Token>::empty());
    assert(open_in(t.drop_last()) == Some(Seq::<char>::empty()));
    lemma_balanced_in(t, e);
    let f = flat(Group(Box::new(e)));
    assert(f =~= (t + flat(e)).push(Paren(')')));
    assert(f.drop_last() =~= t + flat(e));
    assert(open_in(f)->0 =~= Seq::<char>::empty());
}
spec fn brackets(s: Seq<(Token, usize)>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.last().0 is Paren { brackets(s.drop_last()).push(s.last().0->Paren_0) } else { brackets(s.drop_last()) }
}
// the open brackets are those on the stack
spec fn nested(t: Seq<Token>, s: Seq<(Token, usize)>) -> bool {
    ||| open_in(t) == Some(brackets(s)) && (s.len() > 0 ==> s[0].0 == Paren('('))
    ||| open_in(t) is None && (s.len() > 0 ==> s[0].0 is Op)
}
proof fn lemma_nested_push(t: Seq<Token>, s: Seq<(Token, usize)>, x: Token, n: usize)
    requires
        nested(t, s), x is Op || x is Prefix || x is VarArr || x == Paren('(') || x == Paren('['),
        s.len() == 0 ==> t.len() == 0 && x == Paren('(') || t.len() > 0 && x is Op,
    ensures nested(t.push(x), s.push((x, n)))
{
    assert(t.push(x).drop_last() =~= t);
    assert(s.push((x, n)).drop_last() =~= s);
    if s.len() > 0 && s[0].0 is Paren { lemma_brackets(s); }
}
proof fn lemma_brackets(s: Seq<(Token, usize)>)
    requires s.len() > 0, s[0].0 is Paren
    ensures brackets(s).len() > 0
    decreases s.len()
{
    if s.len() > 1 { lemma_brackets(s.drop_last()); }
}
proof fn lemma_nested_operand(t: Seq<Token>, s: Seq<(Token, usize)>, x: Token)
    requires nested(t, s), x is Val || x is Var, s.len() > 0
    ensures nested(t.push(x), s)
{
    assert(t.push(x).drop_last() =~= t);
    if s[0].0 is Paren { lemma_brackets(s); }
}
// a closing bracket: the innermost one on the stack is s.last()
proof fn lemma_nested_close(t: Seq<Token>, s: Seq<(Token, usize)>, c: char, other: char)
    requires
        nested(t, s), t.len() > 0, s.len() > 0 ==> s.last().0 is Paren,
        c == ')' && other == '(' || c == ']' && other == '[',
    ensures
        s.len() == 0 || s.last().0 != Paren(other) ==> open_in(t.push(Paren(c))) is None,
        s.len() > 0 && s.last().0 == Paren(other) ==> nested(t.push(Paren(c)), s.drop_last()),
        // the array in front of the bracket
        s.len() > 2 && s.last().0 == Paren(other) && !(s[s.len() - 2].0 is Paren) ==> nested(t.push(Paren(c)), s.drop_last().drop_last()),
        s.len() == 1 && s.last().0 == Paren(other) ==> open_in(t.push(Paren(c))) is Some,
{
    let t1 = t.push(Paren(c));
    assert(t1.drop_last() =~= t);
    if s.len() > 0 {
        assert(brackets(s).drop_last() =~= brackets(s.drop_last()));
        assert(s[0] == if s.len() > 1 { s.drop_last()[0] } else { s.last() });
    }
}
// the position of an operator that is taken from the stack
proof fn lemma_at(t: Seq<Token>, r: Seq<(Token, usize)>, s: Seq<(Token, usize)>, l: Seq<Ast>, e: Ast)
    requires sorting(t, r, s, l, Some(e)), s.len() > 0
    ensures
        s.last().0 is Op ==> s.last().1 <= r.len(),
        s.last().0 is Op || s.last().0 is Prefix || s.last().0 is Paren,
        s.last().0 is Paren ==> s.last().0 == Paren('(') || s.last().0 == Paren('[') && s.len() > 2 && s[s.len() - 2].0 is VarArr && s[s.len() - 2].1 <= r.len(),
        entry_ok(s, l, s.len() - 1),
{
    assert(entry_ok(s, l, s.len() - 1));
    assert(s.take(s.len() as int) =~= s);
    assert(l.take(l.len() as int) =~= l);
    lemma_post_len(e);
    assert(bare(r).len() == r.len());
    if s.len() > 1 {
        assert(entry_ok(s, l, s.len() - 2));
        assert(s.take(s.len() - 1) =~= s.drop_last());
        assert(l.take(l.len() - 1) =~= l.drop_last());
    }
}

//@fn src/eval.rs push_op
//@spec
    ensures final(rpn)@ == old(rpn)@.push((*op, lhs))
//@end
//@closure src/eval.rs sort_into_rpn_with 1
//@sig fn calc_lhs(op: &Token, i: usize, len: usize) -> usize
//@spec
    requires op is Op || op is VarArr ==> i <= len && len < usize::MAX
    ensures op is Var ==> res == 0
//@end
fn is_paren(t: &Token, c: char) -> (res: bool)
    ensures res == (*t == Paren(c))
{ match t { Paren(x) => *x == c, _ => false } }

//@fn src/eval.rs sort_into_rpn_with
//@sig fn sort_into_rpn_with(tokens: &Vec<Token>) -> Option<Vec<(Token, usize)>>
//@dropstmt `let calc_lhs`
//@subst `let mut rpn = Vec::new();` => `let mut rpn: Vec<(Token, usize)> = Vec::new();`
//@subst `let mut op_stack = Vec::new();` => `let mut op_stack: Vec<(Token, usize)> = Vec::new();`
//@subst `for &token in tokens {` => `for k in 0..tokens.len() { let token = tokens[k];`
//@subst `while let Some(&(former_op, _)) = op_stack.last() {` => `while op_stack.len() > 0 { let former_op = op_stack[op_stack.len() - 1].0;`
//@subst `let (op, i) = op_stack.pop()?;` => `let (op, i) = match op_stack.pop() { Some(x) => x, None => { return None; } };` *
//@subst `op == Paren(other)` => `is_paren(&op, other)`
//@spec
    requires in_order(tokens@), tokens.len() < usize::MAX, tokens.len() > 0, tokens@[0] == Paren('('), tokens@.last() == Paren(')')
    ensures
        // None: the brackets do not match
        res is Some <==> balanced(tokens@),
        res matches Some(r) ==> {
            &&& scalars(r@)
            &&& exists|e: Ast| #[trigger] grouped(e) && flat(Group(Box::new(e))) == tokens@ && bare(r@) == post(e)
        },
//@entry
        let ghost mut left: Seq<Ast> = Seq::empty();
        let ghost mut cur: Option<Ast> = None;
//@beforeloop 1
        proof {
            assert(tokens@.take(0) =~= Seq::<Token>::empty());
            assert(bare(rpn@) =~= Seq::<Token>::empty());
            assert(ltoks(op_stack@, left) + optoks(cur) =~= Seq::<Token>::empty());
            assert(lpost(op_stack@, left) + oppost(cur) =~= Seq::<Token>::empty());
        }
//@loop 1
            invariant
                in_order(tokens@), tokens.len() < usize::MAX,
                rpn.len() + op_stack.len() <= k,
                sorting(tokens@.take(k as int), rpn@, op_stack@, left, cur),
                sorted_upto(tokens@.take(k as int), op_stack@, cur),
                nested(tokens@.take(k as int), op_stack@), op_stack.len() == 0 ==> open_in(tokens@.take(k as int)) is Some,
                tokens@.len() > 0, tokens@[0] == Paren('('),
//@loopstart 1
            let ghost t = tokens@.take(k as int);
            let ghost t1 = tokens@.take(k + 1);
            proof {
                assert(t1 =~= t.push(tokens@[k as int]));
                if k > 0 { assert(t.last() == tokens@[k - 1]); assert(follows(tokens@[k - 1], tokens@[k as int])); }
            }
//@before `rpn.push((token, 0));`
                proof {
                    lemma_nested_operand(t, op_stack@, token);
                    lemma_operand(t, rpn@, op_stack@, left, token);
                    cur = Some(Leaf(token));
                }
//@before `op_stack.push((token, rpn.len() + 1));`
                proof {
                    lemma_nested_push(t, op_stack@, token, (rpn.len() + 1) as usize);
                    lemma_open(t, rpn@, op_stack@, left, token, (rpn.len() + 1) as usize);
                    left = left.push(Leaf(token));
                }
//@loop 2
                    invariant
                        rpn.len() + op_stack.len() <= k, k < tokens.len() < usize::MAX,
                        sorting(t, rpn@, op_stack@, left, cur), nested(t, op_stack@), t.len() > 0,
                        cur is Some, right_ok(cur->0, op),
                    ensures
                        op_stack.len() > 0 ==> yields(op_stack@.last().0, op),
                    decreases op_stack.len()
//@before `let (op, i)` 1
                    let ghost (r1, s1, l1, c1) = (rpn@, op_stack@, left, op);
                    proof { lemma_at(t, rpn@, op_stack@, left, cur->0); }
//@after `push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);` 1
                    proof {
                        lemma_reduce(t, r1, s1, l1, cur->0, rpn@.last().1);
                        cur = Some(reduced(op, l1.last(), cur->0));
                        left = l1.drop_last();
                        assert(op_stack@ =~= s1.drop_last());
                    }
//@before `op_stack.push((Op(op), rpn.len()));`
                proof {
                    lemma_nested_push(t, op_stack@, Op(op), rpn.len());
                    lemma_op(t, rpn@, op_stack@, left, cur->0, op, rpn.len());
                    left = left.push(cur->0);
                    cur = None;
                }
//@loop 3
                    invariant_except_break
                        rpn.len() + op_stack.len() <= k, k < tokens.len() < usize::MAX,
                        sorting(t, rpn@, op_stack@, left, cur), nested(t, op_stack@), t.len() > 0,
                        cur is Some,
                    invariant
                        k < tokens.len() < usize::MAX, t.len() > 0, t1 == tokens@.take(k + 1), t1 == t.push(token), token == Paren(x),
                        x == ')' && other == '(' || x == ']' && other == '[',
                    ensures
                        rpn.len() + op_stack.len() < k,
                        nested(t, sc),
                        sorting(t, rpn@, sc, left, cur), sc.len() > 0, op_stack@ == sc.drop_last(), sc.last().0 == Paren(other),
                        cur is Some,
                    decreases op_stack.len()
//@beforeloop 3
                let ghost mut sc = op_stack@;
//@before `let (op, i)` 2
                    let ghost (r1, s1, l1) = (rpn@, op_stack@, left);
                    proof {
                        sc = op_stack@;
                        if sc.len() > 0 { lemma_at(t, rpn@, sc, left, cur->0); }
                        if sc.len() == 0 || sc.last().0 is Paren { lemma_nested_close(t, sc, x, other); }
                        if open_in(t1) is None { lemma_open_in(tokens@, k + 1); }
                    }
//@after `push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);` 2
                    proof {
                        lemma_reduce(t, r1, s1, l1, cur->0, rpn@.last().1);
                        cur = Some(reduced(op, l1.last(), cur->0));
                        left = l1.drop_last();
                        assert(op_stack@ =~= s1.drop_last());
                    }
//@afterloop 3
                let ghost r2 = rpn@;
                proof {
                    lemma_at(t, rpn@, sc, left, cur->0);
                    lemma_nested_close(t, sc, x, other);
                    if x == ')' {
                        lemma_group(t, rpn@, sc, left, cur->0);
                        cur = Some(Group(Box::new(cur->0)));
                        left = left.drop_last();
                    }
                }
//@after `push_op(&op, calc_lhs(&op, i, rpn.len()), &mut rpn);` 3
                    proof {
                        lemma_index(t, r2, sc, left, cur->0, rpn@.last().1);
                        assert(rpn@ =~= r2.push((op, rpn@.last().1)));
                        assert(op_stack@ =~= sc.drop_last().drop_last());
                        cur = Some(Idx(op->VarArr_0, Box::new(cur->0)));
                        left = left.drop_last().drop_last();
                    }
//@afterloop 1
        proof {
            assert(tokens@.take(tokens.len() as int) =~= tokens@);
            if op_stack.len() == 0 {
                assert(ltoks(op_stack@, left) =~= Seq::<Token>::empty());
                let e = cur->0->Group_0;
                assert(ltoks(op_stack@, left) + flat(cur->0) =~= flat(Group(Box::new(*e))));
                assert(lpost(op_stack@, left) + post(cur->0) =~= post(*e));
                assert(grouped(*e));
            } else if op_stack@[0].0 is Paren { lemma_brackets(op_stack@); }
        }
//@end

// ---- the value of what has been sorted
// the names and operators there are
spec fn known(t: Token, ids: spec_fn(usize) -> bool) -> bool {
    match t { Op(c) => is_binary(c), Prefix(c) => is_prefix(c), Var(id, _) => ids(id), VarArr(id) => ids(id), _ => true }
}
spec fn all_known(t: Seq<Token>, ids: spec_fn(usize) -> bool) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] known(t[i], ids) }
proof fn lemma_known_append(a: Seq<Token>, b: Seq<Token>, ids: spec_fn(usize) -> bool)
    ensures all_known(a + b, ids) <==> all_known(a, ids) && all_known(b, ids)
{
    if all_known(a + b, ids) {
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] known(a[i], ids) by { assert(known((a + b)[i], ids)); }
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] known(b[i], ids) by { assert(known((a + b)[a.len() + i], ids)); }
    }
    if all_known(a, ids) && all_known(b, ids) {
        assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] known((a + b)[i], ids) by {
            if i < a.len() { assert(known(a[i], ids)); } else { assert(known(b[i - a.len()], ids)); }
        }
    }
}
// the first n tokens are post(e)
spec fn begins(r: Seq<(Token, usize)>, e: Ast) -> bool { r.len() >= post(e).len() && scalars(r) && forall|i: int| 0 <= i < post(e).len() ==> (#[trigger] r[i]).0 == post(e)[i] }
proof fn lemma_skip(r: Seq<(Token, usize)>, n: int)
    requires scalars(r), 0 <= n <= r.len()
    ensures scalars(r.skip(n))
{
    assert forall|i: int| 0 <= i < r.skip(n).len() && (#[trigger] r.skip(n)[i]).0 is Var implies r.skip(n)[i].1 == 0 by { assert(r.skip(n)[i] == r[n + i]); }
}
proof fn lemma_run(r: Seq<(Token, usize)>, e: Ast, st: Seq<i64>, env: spec_fn(usize, i64) -> Option<i64>)
    requires begins(r, e), grouped(e)
    ensures run(r, st, env) == match value(e, env) { Some(v) => run(r.skip(post(e).len() as int), st.push(v), env), None => None }
    decreases e
{
    let n = post(e).len() as int;
    lemma_post_len(e);
    match e {
        Leaf(t) => { assert(r[0].0 == post(e)[0]); }
        Idx(id, x) => {
            assert(begins(r, *x)) by { assert forall|i: int| 0 <= i < post(*x).len() implies (#[trigger] r[i]).0 == post(*x)[i] by { assert(r[i].0 == post(e)[i]); } }
            lemma_run(r, *x, st, env);
            assert(r[n - 1].0 == post(e)[n - 1]);
            let r1 = r.skip(n - 1);
            assert(r1[0] == r[n - 1]);
            assert(r1.skip(1) =~= r.skip(n));
            if let Some(v) = value(*x, env) { assert(st.push(v).drop_last() =~= st); }
        }
        Group(x) => lemma_run(r, *x, st, env),
        Pre(c, x) => {
            assert(begins(r, *x)) by { assert forall|i: int| 0 <= i < post(*x).len() implies (#[trigger] r[i]).0 == post(*x)[i] by { assert(r[i].0 == post(e)[i]); } }
            lemma_run(r, *x, st, env);
            assert(r[n - 1].0 == post(e)[n - 1]);
            let r1 = r.skip(n - 1);
            assert(r1[0] == r[n - 1]);
            assert(r1.skip(1) =~= r.skip(n));
            if let Some(v) = value(*x, env) { assert(st.push(v).drop_last() =~= st); }
        }
        Bin(c, a, b) => {
            let m = post(*a).len() as int;
            assert(begins(r, *a)) by { assert forall|i: int| 0 <= i < m implies (#[trigger] r[i]).0 == post(*a)[i] by { assert(r[i].0 == post(e)[i]); } }
            lemma_run(r, *a, st, env);
            lemma_skip(r, m);
            let r1 = r.skip(m);
            assert(begins(r1, *b)) by { assert forall|i: int| 0 <= i < post(*b).len() implies (#[trigger] r1[i]).0 == post(*b)[i] by { assert(r1[i] == r[m + i]); assert(r[m + i].0 == post(e)[m + i]); } }
            let r2 = r.skip(n - 1);
            assert(r1.skip(post(*b).len() as int) =~= r2);
            assert(r[n - 1].0 == post(e)[n - 1]);
            assert(r2[0] == r[n - 1]);
            assert(r2.skip(1) =~= r.skip(n));
            if let Some(v) = value(*a, env) {
                lemma_run(r1, *b, st.push(v), env);
                if let Some(w) = value(*b, env) {
                    let s2 = st.push(v).push(w);
                    assert(s2.drop_last() =~= st.push(v));
                    assert(s2.drop_last().drop_last() =~= st);
                }
            }
        }
    }
}
proof fn lemma_height(r: Seq<(Token, usize)>, e: Ast, n: int, ids: spec_fn(usize) -> bool)
    requires begins(r, e), grouped(e), n >= 0, all_known(flat(e), ids)
    ensures height(r, n, ids) == height(r.skip(post(e).len() as int), n + 1, ids)
    decreases e
{
    let k = post(e).len() as int;
    lemma_post_len(e);
    match e {
        Leaf(t) => { assert(r[0].0 == post(e)[0]); assert(known(flat(e)[0], ids)); }
        Idx(id, x) => {
            assert(begins(r, *x)) by { assert forall|i: int| 0 <= i < post(*x).len() implies (#[trigger] r[i]).0 == post(*x)[i] by { assert(r[i].0 == post(e)[i]); } }
            let h = seq![VarArr(id), Paren('[')];
            lemma_known_append(h + flat(*x), seq![Paren(']')], ids);
            lemma_known_append(h, flat(*x), ids);
            assert(known(h[0], ids));
            lemma_height(r, *x, n, ids);
            assert(r[k - 1].0 == post(e)[k - 1]);
            let r1 = r.skip(k - 1);
            assert(r1[0] == r[k - 1]);
            assert(r1.skip(1) =~= r.skip(k));
        }
        Group(x) => {
            let h = seq![Paren('(')];
            lemma_known_append(h + flat(*x), seq![Paren(')')], ids);
            lemma_known_append(h, flat(*x), ids);
            lemma_height(r, *x, n, ids);
        }
        Pre(c, x) => {
            assert(begins(r, *x)) by { assert forall|i: int| 0 <= i < post(*x).len() implies (#[trigger] r[i]).0 == post(*x)[i] by { assert(r[i].0 == post(e)[i]); } }
            let h = seq![Prefix(c)];
            lemma_known_append(h, flat(*x), ids);
            assert(known(h[0], ids));
            lemma_height(r, *x, n, ids);
            assert(r[k - 1].0 == post(e)[k - 1]);
            let r1 = r.skip(k - 1);
            assert(r1[0] == r[k - 1]);
            assert(r1.skip(1) =~= r.skip(k));
        }
        Bin(c, a, b) => {
            let m = post(*a).len() as int;
            let h = seq![Op(c)];
            lemma_known_append(flat(*a) + h, flat(*b), ids);
            lemma_known_append(flat(*a), h, ids);
            assert(known(h[0], ids));
            assert(begins(r, *a)) by { assert forall|i: int| 0 <= i < m implies (#[trigger] r[i]).0 == post(*a)[i] by { assert(r[i].0 == post(e)[i]); } }
            lemma_height(r, *a, n, ids);
            lemma_skip(r, m);
            let r1 = r.skip(m);
            assert(begins(r1, *b)) by { assert forall|i: int| 0 <= i < post(*b).len() implies (#[trigger] r1[i]).0 == post(*b)[i] by { assert(r1[i] == r[m + i]); assert(r[m + i].0 == post(e)[m + i]); } }
            let r2 = r.skip(k - 1);
            assert(r1.skip(post(*b).len() as int) =~= r2);
            assert(r[k - 1].0 == post(e)[k - 1]);
            assert(r2[0] == r[k - 1]);
            assert(r2.skip(1) =~= r.skip(k));
            lemma_height(r1, *b, n + 1, ids);
        }
    }
}
// r is the notation of e
spec fn notes(r: Seq<(Token, usize)>, e: Ast) -> bool { grouped(e) && bare(r) == post(e) && scalars(r) }
proof fn lemma_value(r: Seq<(Token, usize)>, e: Ast, env: spec_fn(usize, i64) -> Option<i64>)
    requires notes(r, e)
    ensures rpn_value(r, env) == value(e, env)
{
    assert forall|i: int| 0 <= i < post(e).len() implies (#[trigger] r[i]).0 == post(e)[i] by { assert(bare(r)[i] == r[i].0); }
    assert(bare(r).len() == r.len());
    lemma_run(r, e, Seq::empty(), env);
    assert(r.skip(r.len() as int) =~= Seq::<(Token, usize)>::empty());
}
proof fn lemma_rpn_ok(r: Seq<(Token, usize)>, e: Ast, ids: spec_fn(usize) -> bool)
    requires notes(r, e), all_known(flat(e), ids)
    ensures rpn_ok(r, ids)
{
    assert forall|i: int| 0 <= i < post(e).len() implies (#[trigger] r[i]).0 == post(e)[i] by { assert(bare(r)[i] == r[i].0); }
    assert(bare(r).len() == r.len());
    lemma_height(r, e, 0, ids);
    assert(r.skip(r.len() as int) =~= Seq::<(Token, usize)>::empty());
}
