// ---- what an expression means
// its value; None: it is not an expression, or it has no value
spec fn meaning(s: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>, env: spec_fn(usize, i64) -> Option<i64>) -> Option<i64> {
    if exists|e: Ast| #[trigger] is_expr(s, names, e) { value(choose|e: Ast| #[trigger] is_expr(s, names, e), env) } else { None }
}
proof fn lemma_meaning(s: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>, e: Ast, env: spec_fn(usize, i64) -> Option<i64>)
    requires is_expr(s, names, e)
    ensures meaning(s, names, env) == value(e, env)
{
    let d = choose|e: Ast| #[trigger] is_expr(s, names, e);
    lemma_unique(e, d, env);
}
// r is what the text s says
spec fn says(r: Seq<(Token, usize)>, s: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>) -> bool { exists|e: Ast| #[trigger] is_expr(s, names, e) && notes(r, e) }
proof fn lemma_says(r: Seq<(Token, usize)>, s: Seq<char>, names: spec_fn(Seq<u8>) -> Option<VarAttr>, ids: spec_fn(usize) -> bool)
    requires says(r, s, names), forall|i: usize| #[trigger] ids_of(names)(i) ==> ids(i)
    ensures
        rpn_ok(r, ids),
        forall|env: spec_fn(usize, i64) -> Option<i64>| #[trigger] rpn_value(r, env) == meaning(s, names, env),
{
    let e = choose|e: Ast| #[trigger] is_expr(s, names, e) && notes(r, e);
    let t = lexed(trimmed(s), names)->0;
    lemma_lexed_ok(trimmed(s), names);
    assert forall|i: int| 0 <= i < t.len() implies token_ok(#[trigger] t[i], ids) by { assert(token_ok(t[i], ids_of(names))); }
    lemma_ordered(Group(Box::new(e)));
    lemma_ordered(e);
    lemma_marked_ok(t, ids);
    lemma_known_append(seq![Paren('(')] + flat(e), seq![Paren(')')], ids);
    lemma_known_append(seq![Paren('(')], flat(e), ids);
    lemma_rpn_ok(r, e, ids);
    assert forall|env: spec_fn(usize, i64) -> Option<i64>| #[trigger] rpn_value(r, env) == meaning(s, names, env) by {
        lemma_value(r, e, env);
        lemma_meaning(s, names, e, env);
    }
}

// integers on the command line
spec fn no_names() -> spec_fn(Seq<u8>) -> Option<VarAttr> { |n: Seq<u8>| None::<VarAttr> }
spec fn no_vars() -> spec_fn(usize, i64) -> Option<i64> { |id: usize, i: i64| Some(0i64) }     // never used
spec fn int_of(s: Seq<char>) -> Option<i64> { meaning(s, no_names(), no_vars()) }
struct NoGetter { }
impl Getter for NoGetter {
    spec fn wf(&self) -> bool { true }
    spec fn ids(&self) -> spec_fn(usize) -> bool { |id: usize| true }
    spec fn env(&self) -> spec_fn(usize, i64) -> Option<i64> { no_vars() }
    spec fn failed(&self) -> bool { false }
    type Base = bool;
    spec fn base(&self) -> bool { true }
    type Gfin = bool;
    #[verifier::prophetic]
    spec fn gfin(&self) -> bool { true }
//@closure src/eval.rs parse_int 1
//@sig fn get(&mut self, id: usize, val: i64) -> i64
//@end
}
//@fn src/eval.rs parse_int
//@closurearg 1 => `&mut NoGetter {}`
//@subst `Rpn::new(input, None)` => `Rpn::new(input, None::<&Vars>)`
//@spec
    ensures match int_of(input@) { Some(v) => res == Ok::<i64, Error>(v), None => res is Err }
//@entry
        proof {
            assert(names_of(None) =~= no_names());
            assert forall|e: Ast| #[trigger] is_expr(input@, no_names(), e) implies is_expr(input@, names_of(None), e) by {}
        }
//@before `rpn.evaluate`
        proof {
            assert(says(rpn.rpn@, input@, no_names()));
            lemma_says(rpn.rpn@, input@, no_names(), |id: usize| true);
            assert(rpn_value(rpn.rpn@, no_vars()) == int_of(input@));
        }
//@end

// i64 to usize
#[verifier::external_body]
fn usize_of(x: i64) -> (res: std::result::Result<usize, std::num::TryFromIntError>) ensures res is Ok <==> x >= 0, res matches Ok(v) ==> v == x { x.try_into() }
spec fn size_of_text(s: Seq<char>) -> Option<usize> { match int_of(s) { Some(v) => if v >= 0 { Some(v as usize) } else { None }, None => None } }
//@fn src/eval.rs parse_usize
//@subst `val.try_into()` => `usize_of(val)`
//@spec
    ensures match size_of_text(s@) { Some(v) => res == Ok::<usize, Error>(v), None => res is Err }
//@end

// an empty part is no value
spec fn part_ok(s: Seq<char>, v: Option<i64>) -> bool { if s.len() == 0 { v is None } else { v is Some && v == int_of(s) } }
spec fn list_ok(p: Seq<Seq<char>>, v: Seq<Option<i64>>) -> bool { v.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> part_ok(#[trigger] p[i], v[i]) }
//@fn src/eval.rs parse_delimited
//@subst `let mut v = Vec::new();` => `let mut v: Vec<Option<i64>> = Vec::new();`
//@subst `for x in s.split(delim) {` => `let parts = split_text(s, delim); let mut k: usize = 0; while k < parts.len() { let x = parts[k]; k += 1;`
//@subst `x.is_empty()` => `is_empty_str(x)`
//@spec
    requires delim@.len() > 0
    ensures
        res matches Ok(v) ==> list_ok(split(s@, delim@), v@),
        res is Err ==> exists|i: int| 0 <= i < split(s@, delim@).len() && (#[trigger] split(s@, delim@)[i]).len() > 0 && int_of(split(s@, delim@)[i]) is None,
//@loop 1
            invariant
                parts.len() == split(s@, delim@).len(), forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts@[i])@ == split(s@, delim@)[i],
                k <= parts.len(), v.len() == k,
                forall|i: int| 0 <= i < k ==> part_ok(#[trigger] split(s@, delim@)[i], v@[i]),
            decreases parts.len() - k
//@loopstart 1
            let ghost p = split(s@, delim@)[k as int];
            proof { assert(parts@[k as int]@ == p); }
//@end

fn nth_or_none(v: &Vec<Option<i64>>, i: usize) -> (res: Option<i64>)
    ensures res == if i < v.len() { v@[i as int] } else { Some(0i64) }
{ if i < v.len() { v[i] } else { Some(0) } }
spec fn part_value(v: Seq<Option<i64>>, i: int) -> i64 { if i < v.len() { match v[i] { Some(x) => x, None => 0 } } else { 0 } }
// "N,M": what is left out is zero
spec fn pair_of(s: Seq<char>, h: usize, t: usize) -> bool {
    exists|v: Seq<Option<i64>>| #[trigger] list_ok(split(s, seq![',']), v) && s.len() > 0 && v.len() <= 2 && h == part_value(v, 0) && t == part_value(v, 1)
}
//@fn src/eval.rs parse_usize_pair
//@subst `s.is_empty()` => `is_empty_str(s)` ?
//@subst `vals.get(1).unwrap_or(&Some(0))` => `nth_or_none(&vals, 1)`
//@subst `head_raw.try_into()` => `usize_of(head_raw)`
//@subst `tail_raw.try_into()` => `usize_of(tail_raw)`
//@spec
    ensures
        res matches Ok((h, t)) ==> pair_of(s@, h, t),
        res is Err ==> forall|h: usize, t: usize| !pair_of(s@, h, t),
//@entry
        proof {
            reveal_strlit(",");
            assert(","@ =~= seq![',']);
            lemma_parts(s@, seq![','], Seq::empty());
            let p = split(s@, seq![',']);
            assert forall|h: usize, t: usize| pair_of(s@, h, t) implies forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() == 0 || int_of(p[i]) is Some by {
                let v = choose|v: Seq<Option<i64>>| #[trigger] list_ok(p, v) && s@.len() > 0 && v.len() <= 2 && h == part_value(v, 0) && t == part_value(v, 1);
                assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).len() == 0 || int_of(p[i]) is Some by { assert(part_ok(p[i], v[i])); }
            }
        }
//@after `let vals = parse_delimited(s, ",")?;`
        proof {
            let p = split(s@, seq![',']);
            assert(list_ok(p, vals@));
            assert forall|h: usize, t: usize| pair_of(s@, h, t) implies vals.len() <= 2 && s@.len() > 0 && h == part_value(vals@, 0) && t == part_value(vals@, 1) by {
                let v = choose|v: Seq<Option<i64>>| #[trigger] list_ok(p, v) && s@.len() > 0 && v.len() <= 2 && h == part_value(v, 0) && t == part_value(v, 1);
                assert forall|i: int| 0 <= i < p.len() implies #[trigger] v[i] == vals@[i] by { assert(part_ok(p[i], v[i])); assert(part_ok(p[i], vals@[i])); }
                assert(v =~= vals@);
            }
        }
//@end
