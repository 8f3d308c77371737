// ---- an expression has one value: the order of evaluation follows from the tokens
// what is on the stack and what is out after the tokens of e
spec fn spine(e: Ast) -> Seq<Token>
    decreases e
{
    match e { Pre(c, x) => seq![Prefix(c)] + spine(*x), Bin(c, _, r) => seq![Op(c)] + spine(*r), _ => Seq::empty() }
}
spec fn body(e: Ast) -> Seq<Token>
    decreases e
{
    match e { Pre(_, x) => body(*x), Bin(_, l, r) => post(*l) + body(*r), _ => post(e) }
}
// operators that go out before the operator c; None: a bracket is closed
spec fn goes(t: Token, c: Option<char>) -> bool { (t is Op || t is Prefix) && (c matches Some(x) ==> !yields(t, x)) }
spec fn unwind(o: Seq<Token>, s: Seq<Token>, c: Option<char>) -> (Seq<Token>, Seq<Token>)
    decreases s.len()
{ if s.len() > 0 && goes(s.last(), c) { unwind(o.push(s.last()), s.drop_last(), c) } else { (o, s) } }
spec fn sort_step(o: Seq<Token>, s: Seq<Token>, t: Token) -> (Seq<Token>, Seq<Token>) {
    match t {
        Val(_) => (o.push(t), s),
        Var(_, _) => (o.push(t), s),
        Op(c) => { let u = unwind(o, s, Some(c)); (u.0, u.1.push(t)) },
        Paren(c) => if c == ')' { let u = unwind(o, s, None); (u.0, u.1.drop_last()) }
            else if c == ']' { let u = unwind(o, s, None); (u.0.push(u.1[u.1.len() - 2]), u.1.drop_last().drop_last()) }
            else { (o, s.push(t)) },
        _ => (o, s.push(t)),
    }
}
spec fn sort(t: Seq<Token>) -> (Seq<Token>, Seq<Token>)
    decreases t.len()
{ if t.len() == 0 { (Seq::empty(), Seq::empty()) } else { let u = sort(t.drop_last()); sort_step(u.0, u.1, t.last()) } }

proof fn lemma_spine(e: Ast)
    ensures
        post(e) =~= body(e) + spine(e).reverse(),
        forall|i: int| 0 <= i < spine(e).len() ==> goes(#[trigger] spine(e)[i], None),
        forall|i: int, c: char| 0 <= i < spine(e).len() && #[trigger] right_ok(e, c) ==> goes(#[trigger] spine(e)[i], Some(c)),
    decreases e
{
    match e {
        Pre(p, x) => {
            lemma_spine(*x);
            assert(spine(e).reverse() =~= spine(*x).reverse().push(Prefix(p)));
            assert forall|i: int| 0 <= i < spine(e).len() implies goes(#[trigger] spine(e)[i], None) by { if i > 0 { assert(spine(e)[i] == spine(*x)[i - 1]); } }
            assert forall|i: int, c: char| 0 <= i < spine(e).len() && #[trigger] right_ok(e, c) implies goes(#[trigger] spine(e)[i], Some(c)) by { assert(right_ok(*x, c)); if i > 0 { assert(spine(e)[i] == spine(*x)[i - 1]); } }
        }
        Bin(q, _, x) => {
            lemma_spine(*x);
            assert(spine(e).reverse() =~= spine(*x).reverse().push(Op(q)));
            assert forall|i: int| 0 <= i < spine(e).len() implies goes(#[trigger] spine(e)[i], None) by { if i > 0 { assert(spine(e)[i] == spine(*x)[i - 1]); } }
            assert forall|i: int, c: char| 0 <= i < spine(e).len() && #[trigger] right_ok(e, c) implies goes(#[trigger] spine(e)[i], Some(c)) by { assert(right_ok(*x, c)); if i > 0 { assert(spine(e)[i] == spine(*x)[i - 1]); } }
        }
        _ => {}
    }
}
proof fn lemma_unwind(o: Seq<Token>, s: Seq<Token>, p: Seq<Token>, c: Option<char>)
    requires s.len() == 0 || !goes(s.last(), c), forall|i: int| 0 <= i < p.len() ==> goes(#[trigger] p[i], c)
    ensures unwind(o, s + p, c) == (o + p.reverse(), s)
    decreases p.len()
{
    let q = s + p;
    if p.len() == 0 {
        assert(q =~= s);
        assert(o + p.reverse() =~= o);
    } else {
        assert(goes(p[p.len() - 1], c));
        assert(q.last() == p.last());
        assert(q.drop_last() =~= s + p.drop_last());
        assert forall|i: int| 0 <= i < p.drop_last().len() implies goes(#[trigger] p.drop_last()[i], c) by { assert(goes(p[i], c)); }
        lemma_unwind(o.push(p.last()), s, p.drop_last(), c);
        assert(o.push(p.last()) + p.drop_last().reverse() =~= o + p.reverse());
    }
}
proof fn lemma_left_paren(t: Token, e: Ast)
    requires t is Paren
    ensures left_ok(t, e)
    decreases e
{ match e { Bin(_, l, _) => lemma_left_paren(t, *l), _ => {} } }
proof fn lemma_sort(t: Seq<Token>, e: Ast, o: Seq<Token>, s: Seq<Token>)
    requires grouped(e), sort(t) == (o, s), s.len() > 0, left_ok(s.last(), e)
    ensures sort(t + flat(e)) == (o + body(e), s + spine(e))
    decreases e
{
    match e {
        Leaf(x) => {
            assert((t + flat(e)).drop_last() =~= t);
            assert(o + body(e) =~= o.push(x));
            assert(s + spine(e) =~= s);
        }
        Idx(id, x) => {
            let t1 = t.push(VarArr(id));
            let t2 = t1.push(Paren('['));
            assert(t1.drop_last() =~= t);
            assert(t2.drop_last() =~= t1);
            let s2 = s.push(VarArr(id)).push(Paren('['));
            assert(sort(t1) == sort_step(o, s, VarArr(id)));
            assert(sort(t2) == sort_step(o, s.push(VarArr(id)), Paren('[')));
            lemma_left_paren(Paren('['), *x);
            lemma_sort(t2, *x, o, s2);
            lemma_spine(*x);
            lemma_unwind(o + body(*x), s2, spine(*x), None);
            let t3 = t2 + flat(*x);
            assert((t + flat(e)).drop_last() =~= t3);
            assert(s2.drop_last().drop_last() =~= s);
            assert(o + body(*x) + spine(*x).reverse() =~= o + post(*x));
            assert((o + post(*x)).push(VarArr(id)) =~= o + body(e));
            assert(s + spine(e) =~= s);
        }
        Group(x) => {
            let t2 = t.push(Paren('('));
            assert(t2.drop_last() =~= t);
            let s2 = s.push(Paren('('));
            lemma_left_paren(Paren('('), *x);
            lemma_sort(t2, *x, o, s2);
            lemma_spine(*x);
            lemma_unwind(o + body(*x), s2, spine(*x), None);
            assert((t + flat(e)).drop_last() =~= t2 + flat(*x));
            assert(s2.drop_last() =~= s);
            assert(o + body(*x) + spine(*x).reverse() =~= o + body(e));
            assert(s + spine(e) =~= s);
        }
        Pre(c, x) => {
            let t2 = t.push(Prefix(c));
            assert(t2.drop_last() =~= t);
            lemma_sort(t2, *x, o, s.push(Prefix(c)));
            assert(t2 + flat(*x) =~= t + flat(e));
            assert(s.push(Prefix(c)) + spine(*x) =~= s + spine(e));
        }
        Bin(c, l, r) => {
            lemma_sort(t, *l, o, s);
            lemma_spine(*l);
            assert forall|i: int| 0 <= i < spine(*l).len() implies goes(#[trigger] spine(*l)[i], Some(c)) by { assert(right_ok(*l, c)); }
            lemma_unwind(o + body(*l), s, spine(*l), Some(c));
            let t1 = t + flat(*l);
            let t2 = t1.push(Op(c));
            assert(t2.drop_last() =~= t1);
            let o2 = o + post(*l);
            assert(o + body(*l) + spine(*l).reverse() =~= o2);
            let s2 = s.push(Op(c));
            lemma_sort(t2, *r, o2, s2);
            assert(t2 + flat(*r) =~= t + flat(e));
            assert(o2 + body(*r) =~= o + body(e));
            assert(s2 + spine(*r) =~= s + spine(e));
        }
    }
}
proof fn lemma_sorted(e: Ast)
    requires grouped(e)
    ensures sort(flat(Group(Box::new(e)))).0 == post(e)
{
    let t = seq![Paren('(')];
    let s = seq![Paren('(')];
    let n = Seq::<Token>::empty();
    assert(t.drop_last() =~= n);
    assert(n.push(Paren('(')) =~= s);
    assert(sort(n) == (n, n));
    assert(sort(t) == sort_step(n, n, Paren('(')));
    assert(sort(t) == (n, s));
    lemma_left_paren(Paren('('), e);
    lemma_sort(t, e, n, s);
    lemma_spine(e);
    lemma_unwind(n + body(e), s, spine(e), None);
    let all = flat(Group(Box::new(e)));
    assert(all.drop_last() =~= t + flat(e));
    assert(n + body(e) + spine(e).reverse() =~= post(e));
}
proof fn lemma_value_post(e: Ast, env: spec_fn(usize, i64) -> Option<i64>)
    requires grouped(e)
    ensures value(e, env) == rpn_value(post(e).map_values(|t: Token| (t, 0usize)), env)
{
    let r = post(e).map_values(|t: Token| (t, 0usize));
    assert(bare(r) =~= post(e));
    lemma_value(r, e, env);
}
proof fn lemma_unique(e: Ast, d: Ast, env: spec_fn(usize, i64) -> Option<i64>)
    requires grouped(e), grouped(d), flat(Group(Box::new(e))) == flat(Group(Box::new(d)))
    ensures value(e, env) == value(d, env)
{
    lemma_sorted(e);
    lemma_sorted(d);
    lemma_value_post(e, env);
    lemma_value_post(d, env);
}
