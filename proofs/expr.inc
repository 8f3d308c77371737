// ---- from the text of an expression to its value
// str::trim: the characters that are white in Unicode, at both ends
spec fn is_space(c: char) -> bool {
    let u = c as int;
    9 <= u <= 13 || u == 0x20 || u == 0x85 || u == 0xa0 || u == 0x1680 || 0x2000 <= u <= 0x200a || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000
}
spec fn trimmed(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { s } else if is_space(s[0]) { trimmed(s.skip(1)) } else if is_space(s.last()) { trimmed(s.drop_last()) } else { s } }
#[verifier::external_body]
fn trim(s: &str) -> (res: &str) ensures res@ == trimmed(s@), res@.len() <= isize::MAX { s.trim() }
#[verifier::external_body]
fn is_empty_str(s: &str) -> (res: bool) ensures res == (s@.len() == 0) { s.is_empty() }

// the text s is the expression e
spec fn is_expr(s: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>, e: Ast) -> bool {
    lexed(trimmed(s), names) is Some && grouped(e) && flat(Group(Box::new(e))) == marked(enclosed(lexed(trimmed(s), names)->0))
}

// the tokens of an expression are in order, and its brackets match
proof fn lemma_ordered(e: Ast)
    requires grouped(e)
    ensures flat(e).len() > 0, in_order(flat(e)), starts_operand(flat(e)[0]), ends_operand(flat(e).last())
    decreases e
{
    match e {
        Leaf(_) => {}
        Idx(id, x) => {
            lemma_ordered(*x);
            let h = seq![VarArr(id), Paren('[')];
            lemma_joined(h, flat(*x));
            lemma_joined(h + flat(*x), seq![Paren(']')]);
        }
        Group(x) => {
            lemma_ordered(*x);
            let h = seq![Paren('(')];
            lemma_joined(h, flat(*x));
            lemma_joined(h + flat(*x), seq![Paren(')')]);
        }
        Pre(c, x) => {
            lemma_ordered(*x);
            lemma_joined(seq![Prefix(c)], flat(*x));
        }
        Bin(c, l, r) => {
            lemma_ordered(*l);
            lemma_ordered(*r);
            lemma_joined(flat(*l), seq![Op(c)]);
            lemma_joined(flat(*l) + seq![Op(c)], flat(*r));
        }
    }
}
proof fn lemma_joined(a: Seq<Token>, b: Seq<Token>)
    requires in_order(a), in_order(b), a.len() > 0, b.len() > 0, follows(a.last(), b[0])
    ensures in_order(a + b), (a + b)[0] == a[0], (a + b).last() == b.last()
{
    let t = a + b;
    assert forall|i: int| 0 < i < t.len() implies follows(#[trigger] t[i - 1], t[i]) by {
        if i < a.len() { assert(t[i - 1] == a[i - 1]); }
        else if i > a.len() { assert(t[i - 1] == b[i - a.len() - 1]); }
    }
}

// the tokens there are
spec fn token_ok(t: Token, ids: spec_fn(usize) -> bool) -> bool {
    match t {
        Val(_) => true,
        Paren(c) => is_bracket(c),
        Op(c) => is_sign(c) || c == 'g' || c == 'G' || c == 'l' || c == 'L',
        Prefix(_) => false,
        Var(id, _) => ids(id),
        VarArr(id) => ids(id),
    }
}
spec fn tokens_ok(t: Seq<Token>, ids: spec_fn(usize) -> bool) -> bool { forall|i: int| 0 <= i < t.len() ==> token_ok(#[trigger] t[i], ids) }
spec fn ids_of(names: spec_fn(Seq<u8>) -> Option<VarAttr>) -> spec_fn(usize) -> bool { |id: usize| exists|n: Seq<u8>| #[trigger] names(n) is Some && names(n)->0.id == id }
proof fn lemma_lexed_ok(s: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>)
    requires lexed(s, names) is Some
    ensures tokens_ok(lexed(s, names)->0, ids_of(names)), lexed(s, names)->0.len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        let (t, n) = token_at(s, names)->0;
        lemma_lexed_ok(s.skip(n), names);
        reveal(token_at);
        if is_lower(s[0]) || is_upper(s[0]) {
            let name = bytes_of(seq![s[0]] + s.skip(1).take(name_run(s.skip(1))));
            if names(name) is Some { assert(ids_of(names)(names(name)->0.id)); }
        }
        assert(forall|i: int| 0 <= i < opt_seq(t).len() ==> token_ok(#[trigger] opt_seq(t)[i], ids_of(names)));
    }
}
// an operator of an expression is one that can be evaluated
proof fn lemma_marked_ok(t: Seq<Token>, ids: spec_fn(usize) -> bool)
    requires tokens_ok(t, ids), in_order(marked(enclosed(t)))
    ensures all_known(marked(enclosed(t)), ids)
{
    let u = enclosed(t);
    let m = marked(u);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] known(m[i], ids) by {
        assert(m[i] == marked_at(u, i));
        if 0 < i < u.len() - 1 {
            assert(u[i] == t[i - 1]);
            assert(token_ok(t[i - 1], ids));
            if m[i] is Op { assert(m[i - 1] == m[i - 1]); assert(follows(m[i - 1], m[i])); }
        }
    }
}
proof fn lemma_enclosed(t: Seq<Token>)
    requires t.len() > 0 ==> !(t[0] is Prefix)
    ensures marked(enclosed(t))[0] == Paren('('), marked(enclosed(t)).last() == Paren(')'), marked(enclosed(t)).len() == t.len() + 2
{
    let u = enclosed(t);
    assert(u.last() == Paren(')'));
    assert(marked(u).last() == marked_at(u, u.len() - 1));
}

//@struct src/eval.rs Rpn
impl Rpn {
//@fn src/eval.rs Rpn::new
//@sig fn new(input: &str, vars: Option<&Vars>) -> Result<Self>
//@optctx
//@subst `input.trim()` => `trim(input)`
//@subst `input.is_empty()` => `is_empty_str(input)`
//@subst `sort_into_rpn_with(&tokens, push_op)` => `sort_into_rpn_with(&tokens)`
//@spec
    ensures
        res matches Ok(r) ==> exists|e: Ast| #[trigger] is_expr(input@, names_of(vars), e) && notes(r.rpn@, e),
        res is Err ==> forall|e: Ast| !#[trigger] is_expr(input@, names_of(vars), e),
//@entry
        let ghost s = trimmed(input@);
        let ghost names = names_of(vars);
        let ghost m = marked(enclosed(lexed(s, names)->0));
        let ghost text = input@;
        proof {
            if lexed(s, names) is Some {
                let t = lexed(s, names)->0;
                lemma_lexed_ok(s, names);
                lemma_enclosed(t);
                assert forall|i: int| 0 <= i < enclosed(t).len() implies !(#[trigger] enclosed(t)[i] is Prefix) by { if 0 < i < t.len() + 1 { assert(enclosed(t)[i] == t[i - 1]); assert(token_ok(t[i - 1], ids_of(names))); } }
                assert forall|e: Ast| #[trigger] is_expr(text, names, e) implies in_order(m) && balanced(m) && s.len() > 0 by {
                    lemma_ordered(Group(Box::new(e)));
                    lemma_ordered(e);
                    lemma_balanced(e);
                }
            }
        }
//@before `Ok(Rpn`
        proof {
            let e = choose|e: Ast| #[trigger] grouped(e) && flat(Group(Box::new(e))) == tokens@ && bare(rpn@) == post(e);
            assert(is_expr(text, names, e));
            assert(notes(rpn@, e));
        }
//@end
//@fn src/eval.rs Rpn::evaluate
//@sig fn evaluate<F: Getter>(&self, get: &mut F) -> Result<i64>
//@spec
    requires old(get).wf(), rpn_ok(self.rpn@, old(get).ids())
    ensures
        final(get).wf(), final(get).ids() == old(get).ids(), final(get).env() == old(get).env(), final(get).base() == old(get).base(), final(get).gfin() == old(get).gfin(),
        old(get).failed() ==> final(get).failed(),
        res matches Ok(v) ==> !final(get).failed() ==> rpn_value(self.rpn@, old(get).env()) == Some(v),
        res is Err ==> !final(get).failed() ==> rpn_value(self.rpn@, old(get).env()) is None,
//@end
}
