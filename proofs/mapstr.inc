// ---- from the text of S..E to the mapper
//@const src/mapper.rs MAX_OFFSET `isize::MAX / 4` => `(isize::MAX as usize / 4) as isize`
// the canonical form of an expression (not verified: the simplifier): it has the value of the expression wherever that has one
impl Rpn {
    #[verifier::external_body]
    fn tokens(&self) -> (res: Result<Vec<Token>>)
        ensures
            res matches Ok(t) ==> forall|env: spec_fn(usize, i64) -> Option<i64>| #[trigger] rpn_value(self.rpn@, env) is Some ==> rpn_value(flat_rpn(t@), env) == rpn_value(self.rpn@, env),
            res matches Ok(t) ==> forall|ids: spec_fn(usize) -> bool| #[trigger] rpn_ok(self.rpn@, ids) ==> rpn_ok(flat_rpn(t@), ids),
    { unimplemented!() }
}
spec fn flat_rpn(t: Seq<Token>) -> Seq<(Token, usize)> { t.map_values(|x: Token| (x, 0usize)) }
spec fn end_names() -> spec_fn(Seq<u8>) -> Option<VarAttr> {
    |n: Seq<u8>| if n == seq![115u8] { Some(VarAttr { id: 0, is_array: false }) }
        else if n == seq![101u8] { Some(VarAttr { id: 1, is_array: false }) }
        else { None::<VarAttr> }
}
// the slice is [s, e)
spec fn slice_env(s: i64, e: i64) -> spec_fn(usize, i64) -> Option<i64> { |id: usize, i: i64| if id == 0 { Some(s) } else if id == 1 { Some(e) } else { None::<i64> } }
spec fn clamped(c: int) -> int { if c < -MAX_OFFSET { -MAX_OFFSET } else if c > MAX_OFFSET { MAX_OFFSET as int } else { c } }
// v is the value of the text for the slice, if it has one
spec fn gives(s: Seq<char>, x: i64, y: i64, v: i64) -> bool { meaning(s, end_names(), slice_env(x, y)) matches Some(w) ==> w == v }
// the text is anchor + c, where what has no anchor is relative to the default one
spec fn is_anchored(s: Seq<char>, none: usize, anchor: usize, c: i64) -> bool {
    ||| anchor == none && forall|x: i64, y: i64| #[trigger] gives(s, x, y, c)
    ||| anchor == 0 && forall|x: i64, y: i64| #[trigger] gives(s, x, y, n64(x + c))
    ||| anchor == 1 && forall|x: i64, y: i64| #[trigger] gives(s, x, y, n64(y + c))
}
spec fn anchor_is(s: Seq<char>, none: usize, a: SegmentMapperAnchor) -> bool {
    a.anchor <= 1 && exists|c: i64| #[trigger] is_anchored(s, none, a.anchor, c) && a.offset == clamped(c as int)
}
spec fn or_default(s: Seq<char>, d: Seq<char>) -> Seq<char> { if s.len() == 0 { d } else { s } }
// S..E: without an anchor both are relative to the start of the slice; what is left out is the start, or the end
spec fn mapper_is(s: Seq<char>, m: SegmentMapper) -> bool {
    let p = split(s, seq!['.', '.']);
    p.len() == 2 && anchor_is(or_default(p[0], seq!['s']), 0, m.start) && anchor_is(or_default(p[1], seq!['e']), 0, m.end)
}

spec fn val_of(t: Token) -> i64 { t->Val_0 }
// what the simplifier makes of a position
proof fn lemma_form(t: Seq<Token>, env: spec_fn(usize, i64) -> Option<i64>)
    ensures
        t.len() == 1 && t[0] is Val ==> rpn_value(flat_rpn(t), env) == Some(t[0]->Val_0),
        t.len() == 1 && (t[0] matches Var(id, c) && c == 1) ==> rpn_value(flat_rpn(t), env) == (match env(t[0]->Var_0, 0) { Some(v) => Some(n64(1 * v)), None => None }),
        t.len() == 3 && (t[0] matches Var(id, c) && c == 1) && t[1] is Val && t[2] == Op('+') ==> rpn_value(flat_rpn(t), env) == (match env(t[0]->Var_0, 0) { Some(v) => Some(n64(v + t[1]->Val_0)), None => None }),
{
    let r = flat_rpn(t);
    let n = Seq::<i64>::empty();
    reveal_with_fuel(run, 4);
    if t.len() == 1 {
        assert(r.skip(1) =~= Seq::<(Token, usize)>::empty());
        if let Some(s) = step(r[0], n, env) { assert(s.len() == 1); }
    }
    if t.len() == 3 && (t[0] matches Var(id, c) && c == 1) && t[1] is Val && t[2] == Op('+') {
        let (r1, r2, r3) = (r.skip(1), r.skip(1).skip(1), r.skip(1).skip(1).skip(1));
        assert(r1[0] == r[1] && r2[0] == r[2]);
        assert(r3 =~= Seq::<(Token, usize)>::empty());
        if let Some(v) = env(t[0]->Var_0, 0) {
            let s1 = n.push(n64(1 * v));
            let s2 = s1.push(t[1]->Val_0);
            assert(s2.drop_last().drop_last() =~= n);
        }
    }
}
proof fn lemma_gives(r: Seq<(Token, usize)>, t: Seq<Token>, text: Seq<char>, x: i64, y: i64)
    requires
        forall|env: spec_fn(usize, i64) -> Option<i64>| #[trigger] rpn_value(r, env) == meaning(text, end_names(), env),
        forall|env: spec_fn(usize, i64) -> Option<i64>| #[trigger] rpn_value(r, env) is Some ==> rpn_value(flat_rpn(t), env) == rpn_value(r, env),
    ensures
        form(t) matches Form::Const(c) ==> gives(text, x, y, c),
        form(t) matches Form::Anchor(id) ==> (id == 0 ==> gives(text, x, y, n64(x + 0))) && (id == 1 ==> gives(text, x, y, n64(y + 0))),
        form(t) matches Form::Moved(id, c) ==> (id == 0 ==> gives(text, x, y, n64(x + c))) && (id == 1 ==> gives(text, x, y, n64(y + c))),
{
    let env = slice_env(x, y);
    lemma_form(t, env);
    let w = rpn_value(r, env);
    assert(w == meaning(text, end_names(), env));
}
enum Form { Const(i64), Anchor(usize), Moved(usize, i64), Other }
// the patterns [Val(c)], [Var(id, 1)] and [Var(id, 1), Val(c), Op('+')]
spec fn form(t: Seq<Token>) -> Form {
    if t.len() == 1 {
        match t[0] { Val(c) => Form::Const(c), Var(id, 1) => Form::Anchor(id), _ => Form::Other }
    } else if t.len() == 3 {
        match (t[0], t[1], t[2]) { (Var(id, 1), Val(c), Op('+')) => Form::Moved(id, c), _ => Form::Other }
    } else { Form::Other }
}
fn form_of(t: &Vec<Token>) -> (res: Form)
    ensures res == form(t@)
{
    if t.len() == 1 {
        match t[0] { Val(c) => Form::Const(c), Var(id, 1) => Form::Anchor(id), _ => Form::Other }
    } else if t.len() == 3 {
        match (t[0], t[1], t[2]) { (Var(id, 1), Val(c), Op('+')) => Form::Moved(id, c), _ => Form::Other }
    } else { Form::Other }
}
// the end that a default names
fn default_of(s: &str) -> (res: Option<usize>)
    ensures s@ == seq!['s'] ==> res == Some(0usize), s@ == seq!['e'] ==> res == Some(1usize)
{
    proof {
        reveal_strlit("s");
        reveal_strlit("e");
        assert("s"@ =~= seq!['s']);
        assert("e"@ =~= seq!['e']);
        assert(seq!['s'][0] != seq!['e'][0]);
    }
    if s == "s" { Some(0) } else if s == "e" { Some(1) } else { None }
}
fn clamp_isize(x: isize, a: isize, b: isize) -> (res: isize)
    requires a <= b
    ensures res == if x < a { a } else if x > b { b } else { x }
{ if x < a { a } else if x > b { b } else { x } }

impl SegmentMapperAnchor {
//@fn src/mapper.rs SegmentMapperAnchor::from_str
//@subst `expr.is_empty()` => `is_empty_str(expr)`
//@subst `match const_default { "s" => 0, "e" => 1, _ => return Err(anyhow!("unrecognized default anchor {:?} (internal error)", const_default)), }` => `match default_of(const_default) { Some(x) => x, None => return Err(any_error()) }`
//@subst `let vars: HashMap<&[u8], VarAttr> = vars.iter().map(|(x, y)| (x.as_slice(), *y)).collect();` => `let vars: Vars = vars_of(vars);`
//@subst `let (anchor, offset) = match rpn.tokens()?.as_slice() {` => `let toks = rpn.tokens()?; let (anchor, offset) = match form_of(&toks) {`
//@subst `[Val(c)] =>` => `Form::Const(c) =>`
//@subst `[Var(id, 1)] =>` => `Form::Anchor(id) =>`
//@subst `[Var(id, 1), Val(c), Op('+')] =>` => `Form::Moved(id, c) =>`
//@subst `*c` => `c` *
//@subst `*id` => `id` *
//@subst `offset.clamp(` => `clamp_isize(offset,`
//@spec
    requires const_default@ == seq!['s']
    ensures res matches Ok(a) ==> anchor_is(or_default(expr@, empty_default@), 0, a) && a.anchor < 2 && -MAXOFF <= a.offset <= MAXOFF
//@entry
        let ghost text = or_default(expr@, empty_default@);
//@before `let rpn = Rpn::new`
        proof {
            reveal_with_fuel(find_var, 4);
            assert([115u8]@ =~= seq![115u8]);
            assert([101u8]@ =~= seq![101u8]);
            assert(names_of(Some(&vars)) =~= end_names());
            assert(expr@ == text);
        }
//@after `let rpn = Rpn::new(expr, Some(&vars))?;`
        let ghost two = |i: usize| i <= 1;
        proof {
            assert(says(rpn.rpn@, text, end_names()));
            assert forall|i: usize| #[trigger] ids_of(end_names())(i) implies two(i) by { let n = choose|n: Seq<u8>| #[trigger] end_names()(n) is Some && end_names()(n)->0.id == i; }
            lemma_says(rpn.rpn@, text, end_names(), two);
        }
//@before `let offset = clamp_isize`
        let ghost c0 = offset as i64;
        proof {
            let t = toks@;
            let f = flat_rpn(t);
            assert(rpn_ok(f, two));
            reveal_with_fuel(height, 4);
            if t.len() == 1 {
                assert(f[0] == (t[0], 0usize));
                assert(f.skip(1) =~= Seq::<(Token, usize)>::empty());
            }
            if t.len() == 3 {
                assert(f[0] == (t[0], 0usize));
            }
            assert(anchor <= 1);
            match form(t) {
                Form::Const(c) => {
                    assert forall|x: i64, y: i64| #[trigger] gives(text, x, y, c) by { lemma_gives(rpn.rpn@, t, text, x, y); }
                    assert(is_anchored(text, 0, anchor, c));
                },
                Form::Anchor(id) => {
                    assert forall|x: i64, y: i64| id == 0 implies #[trigger] gives(text, x, y, n64(x + 0)) by { lemma_gives(rpn.rpn@, t, text, x, y); }
                    assert forall|x: i64, y: i64| id == 1 implies #[trigger] gives(text, x, y, n64(y + 0)) by { lemma_gives(rpn.rpn@, t, text, x, y); }
                    assert(is_anchored(text, 0, anchor, 0));
                },
                Form::Moved(id, c) => {
                    assert forall|x: i64, y: i64| id == 0 implies #[trigger] gives(text, x, y, n64(x + c)) by { lemma_gives(rpn.rpn@, t, text, x, y); }
                    assert forall|x: i64, y: i64| id == 1 implies #[trigger] gives(text, x, y, n64(y + c)) by { lemma_gives(rpn.rpn@, t, text, x, y); }
                    assert(is_anchored(text, 0, anchor, c));
                },
                Form::Other => {},
            }
            assert(is_anchored(text, 0, anchor, c0));
        }
//@before `Ok(SegmentMapperAnchor`
        proof {
            assert(is_anchored(text, 0, anchor, c0) && offset == clamped(c0 as int));
            let a = SegmentMapperAnchor { anchor, offset };
            assert(a.anchor <= 1);
            assert(is_anchored(text, 0, a.anchor, c0) && a.offset == clamped(c0 as int));
            assert(anchor_is(text, 0, a));
        }
//@end
}
// std: a.get(i).unwrap_or(&["s", "s"])
fn defaults_at<'a>(a: [[&'a str; 2]; 2], i: usize) -> (res: [&'a str; 2])
    ensures i < 2 ==> res == a@[i as int], i >= 2 ==> res@[0]@ == "s"@ && res@[1]@ == "s"@
{ if i < 2 { a[i] } else { ["s", "s"] } }
impl SegmentMapper {
//@fn src/mapper.rs SegmentMapper::from_str
//@subst `let mut v = Vec::new();` => `let mut v: Vec<SegmentMapperAnchor> = Vec::new();`
//@subst `for (i, x) in expr.split("..").enumerate() {` => `let parts = split_text(expr, ".."); let mut k: usize = 0; while k < parts.len() { let i = k; let x = parts[k]; k += 1;`
//@subst `default_anchors.get(i).unwrap_or(&["s", "s"])` => `defaults_at(default_anchors, i)`
//@spec
    ensures
        res matches Ok(m) ==> mapper_is(expr@, m),
        // what parse_mapper of segmap.inc is assumed to give
        res matches Ok(m) ==> m.start.anchor < 2 && -MAXOFF <= m.start.offset <= MAXOFF && m.end.anchor < 2 && -MAXOFF <= m.end.offset <= MAXOFF,
//@entry
        proof {
            reveal_strlit("s");
            reveal_strlit("e");
            reveal_strlit("..");
            assert("s"@ =~= seq!['s']);
            assert("e"@ =~= seq!['e']);
            assert(".."@ =~= seq!['.', '.']);
        }
        let ghost p = split(expr@, seq!['.', '.']);
//@loop 1
            invariant
                parts.len() == p.len(), forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts@[i])@ == p[i],
                k <= parts.len(), v.len() == k,
                default_anchors@[0]@[0]@ == seq!['s'], default_anchors@[0]@[1]@ == seq!['s'], default_anchors@[1]@[0]@ == seq!['e'], default_anchors@[1]@[1]@ == seq!['s'],
                "s"@ == seq!['s'],
                forall|i: int| 0 <= i < k ==> (#[trigger] v@[i]).anchor < 2 && -MAXOFF <= v@[i].offset <= MAXOFF,
                forall|i: int| 0 <= i < k && i < 2 ==> anchor_is(or_default(#[trigger] p[i], if i == 0 { seq!['s'] } else { seq!['e'] }), 0, v@[i]),
            decreases parts.len() - k
//@loopstart 1
            proof { assert(parts@[k as int]@ == p[k as int]); }
//@end
}
// ranges: what lies left of the start is the start
spec fn range_is(s: Seq<char>, r: RangeMapper) -> bool {
    exists|m: SegmentMapper| #[trigger] mapper_is(s, m) && r.start == end_of(m.start) && r.end == end_of(m.end)
}
spec fn end_of(a: SegmentMapperAnchor) -> RangeMapperAnchor {
    if a.anchor == 0 { StartAnchored(zero_or(a.offset as int) as usize) } else { EndAnchored(zero_or(-a.offset) as usize) }
}
spec fn zero_or(x: int) -> int { if x >= 0 { x } else { 0 } }
fn max_isize(a: isize, b: isize) -> (res: isize)
    ensures res == (if a >= b { a } else { b })
{ if a >= b { a } else { b } }
impl RangeMapper {
//@fn src/mapper.rs RangeMapper::from_str
//@subst `std::cmp::max` => `max_isize` *
//@spec
    ensures
        res matches Ok(r) ==> range_is(expr@, r),
        // what parse_range of rangeparse.inc is assumed to give
        res matches Ok(r) ==> (r.start matches EndAnchored(x) ==> x <= MAXOFF) && (r.end matches EndAnchored(x) ==> x <= MAXOFF),
//@before `let start =`
        proof { assert(mapper_is(expr@, mapper)); }
//@end
}
