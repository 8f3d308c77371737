// ---- what a stream is made of: the stages it has gone through, with their parameters
ghost enum Stage {
    Raw(int, usize, u8),
    File(Seq<char>, usize, u8),
    Gapless(usize, u8, InoutFormat),
    Text(usize, u8, InoutFormat),
    Cat(Seq<Seq<Stage>>),
    Zip(Seq<Seq<Stage>>, usize),
    Cut(Seq<char>),
    Clip(ClipperParams, u8),
    Patch(Seq<Stage>, InoutFormat),
    Tee,
    Width(ConstSlicerParams),
    Find(Seq<char>),
    Walk(Seq<char>),
    Slice(Seq<char>, bool),
    Guide(Seq<Stage>),
    Regex(Seq<char>),
    Bridge(Seq<char>),
    Merge(usize),
    Extend(Seq<char>),
    Lines(Seq<char>),
    Scatter(Seq<char>, InoutFormat),
    // with what the stream was where it was cached
    PatchBack(Seq<Stage>, Seq<char>, InoutFormat),
}
trait ByteStream { spec fn stages(&self) -> Seq<Stage>; }
trait SegmentStream { spec fn stages(&self) -> Seq<Stage>; }
// an input (stdin, a file)
pub struct Source { id: usize }

// the stages' constructors: what they build is the subject of the other units; here only which one is built on what, with what
//@foreach x = RawStream GaplessTextStream TextStream CatStream ZipStream CutStream ClipStream PatchStream TeeStream ScatterDrain PatchDrain
struct $x { g: Ghost<Seq<Stage>> }
impl ByteStream for $x { spec fn stages(&self) -> Seq<Stage> { self.g@ } }
//@endforeach
//@foreach x = ConstSlicer ExactMatchSlicer RangeSlicer GuidedSlicer WalkSlicer RegexSlicer BridgeStream MergeStream ExtendStream FilterStream
struct $x { g: Ghost<Seq<Stage>> }
impl SegmentStream for $x { spec fn stages(&self) -> Seq<Stage> { self.g@ } }
//@endforeach
struct TeeStreamReader { g: Ghost<Seq<Stage>> }
spec fn srcs_of(v: Seq<Box<dyn ByteStream>>) -> Seq<Seq<Stage>> { Seq::new(v.len(), |i: int| v[i].stages()) }
impl RawStream {
    #[verifier::external_body]
    fn new(s: Source, align: usize, filler: u8) -> (res: Self) ensures res.stages() == seq![Stage::Raw(s.id as int, align, filler)] { unimplemented!() }
}
impl GaplessTextStream {
    #[verifier::external_body]
    fn new(s: Box<RawStream>, align: usize, filler: u8, f: &InoutFormat) -> (res: Self) ensures res.stages() == s.stages().push(Stage::Gapless(align, filler, *f)) { unimplemented!() }
}
impl TextStream {
    #[verifier::external_body]
    fn new(s: Box<RawStream>, align: usize, filler: u8, f: &InoutFormat) -> (res: Self) ensures res.stages() == s.stages().push(Stage::Text(align, filler, *f)) { unimplemented!() }
}
impl CatStream {
    #[verifier::external_body]
    fn new(v: Vec<Box<dyn ByteStream>>) -> (res: Self) ensures res.stages() == seq![Stage::Cat(srcs_of(v@))] { unimplemented!() }
}
impl ZipStream {
    #[verifier::external_body]
    fn new(v: Vec<Box<dyn ByteStream>>, w: usize) -> (res: Self) ensures res.stages() == seq![Stage::Zip(srcs_of(v@), w)] { unimplemented!() }
}
impl CutStream {
    #[verifier::external_body]
    fn new(p: Box<dyn ByteStream>, e: &String) -> (res: Result<Self>) ensures res matches Ok(r) ==> r.stages() == p.stages().push(Stage::Cut(e@)) { unimplemented!() }
}
impl ClipStream {
    #[verifier::external_body]
    fn new(p: Box<dyn ByteStream>, c: &ClipperParams, filler: u8) -> (res: Self) ensures res.stages() == p.stages().push(Stage::Clip(*c, filler)) { unimplemented!() }
}
impl PatchStream {
    #[verifier::external_body]
    fn new(p: Box<dyn ByteStream>, f: Box<dyn ByteStream>, fmt: &InoutFormat) -> (res: Self) ensures res.stages() == p.stages().push(Stage::Patch(f.stages(), *fmt)) { unimplemented!() }
}
impl TeeStream {
    #[verifier::external_body]
    fn new(p: Box<dyn ByteStream>) -> (res: Self) ensures res.stages() == p.stages().push(Stage::Tee) { unimplemented!() }
    #[verifier::external_body]
    fn spawn_reader(&self) -> (res: TeeStreamReader) ensures res.g@ == self.stages() { unimplemented!() }
}
impl ConstSlicer {
    #[verifier::external_body]
    fn new(p: Box<dyn ByteStream>, c: &ConstSlicerParams) -> (res: Self) ensures res.stages() == p.stages().push(Stage::Width(*c)) { unimplemented!() }
}
impl ExactMatchSlicer {
    #[verifier::external_body]
    fn new(p: Box<dyn ByteStream>, e: &String) -> (res: Result<Self>) ensures res matches Ok(r) ==> r.stages() == p.stages().push(Stage::Find(e@)) { unimplemented!() }
}
impl RangeSlicer {
    #[verifier::external_body]
    fn new(p: Box<dyn ByteStream>, e: &String) -> (res: Result<Self>) ensures res matches Ok(r) ==> r.stages() == p.stages().push(Stage::Slice(e@, false)) { unimplemented!() }
    #[verifier::external_body]
    fn with_full_scan(self, full: bool) -> (res: Self) ensures
        forall|p: Seq<Stage>, e: Seq<char>| #[trigger] p.push(Stage::Slice(e, false)) == self.stages() ==> res.stages() == p.push(Stage::Slice(e, full)) { unimplemented!() }
}
impl GuidedSlicer {
    #[verifier::external_body]
    fn new(p: Box<dyn ByteStream>, f: Box<dyn ByteStream>) -> (res: Self) ensures res.stages() == p.stages().push(Stage::Guide(f.stages())) { unimplemented!() }
}
impl WalkSlicer {
    #[verifier::external_body]
    fn new(p: Box<dyn ByteStream>, e: &String) -> (res: Result<Self>) ensures res matches Ok(r) ==> r.stages() == p.stages().push(Stage::Walk(e@)) { unimplemented!() }
}
impl MergeStream {
    #[verifier::external_body]
    fn new(p: Box<dyn SegmentStream>, t: usize) -> (res: Self) ensures res.stages() == p.stages().push(Stage::Merge(t)) { unimplemented!() }
}
impl RegexSlicer {
    #[verifier::external_body]
    fn new(p: Box<dyn SegmentStream>, e: &String) -> (res: Result<Self>) ensures res matches Ok(r) ==> r.stages() == p.stages().push(Stage::Regex(e@)) { unimplemented!() }
}
impl BridgeStream {
    #[verifier::external_body]
    fn new(p: Box<dyn SegmentStream>, e: &String) -> (res: Result<Self>) ensures res matches Ok(r) ==> r.stages() == p.stages().push(Stage::Bridge(e@)) { unimplemented!() }
}
impl ExtendStream {
    #[verifier::external_body]
    fn new(p: Box<dyn SegmentStream>, e: &String) -> (res: Result<Self>) ensures res matches Ok(r) ==> r.stages() == p.stages().push(Stage::Extend(e@)) { unimplemented!() }
}
impl FilterStream {
    #[verifier::external_body]
    fn new(p: Box<dyn SegmentStream>, e: &String) -> (res: Result<Self>) ensures res matches Ok(r) ==> r.stages() == p.stages().push(Stage::Lines(e@)) { unimplemented!() }
}
impl ScatterDrain {
    #[verifier::external_body]
    fn new(p: Box<dyn SegmentStream>, e: &String, f: &InoutFormat) -> (res: Result<Self>) ensures res matches Ok(r) ==> r.stages() == p.stages().push(Stage::Scatter(e@, *f)) { unimplemented!() }
}
impl PatchDrain {
    #[verifier::external_body]
    fn new(p: Box<dyn SegmentStream>, c: Box<TeeStreamReader>, e: &String, f: &InoutFormat) -> (res: Self) ensures res.stages() == p.stages().push(Stage::PatchBack(c.g@, e@, *f)) { unimplemented!() }
}

// ---- the order that is documented
// 0: the mode, 1: cut, pad and patch to the bytes, 2: the slicer, 3: the filters of slices, 4: the drain
spec fn class_of(n: Node) -> NodeClass {
    match n {
        Cat | Zip | Inplace => Placeholder,
        Cut(_) | Clipper(_) | Patch(_) | Tee => ByteFilter,
        Width(_) | Find(_) | Slice(_) | Guide(_) | Walk(_) => Slicer,
        Regex(_) | Bridge(_) | Merge(_) | Extend(_) | Lines(_) => SegmentFilter,
        Scatter(_) | PatchBack(_) => Drain,
    }
}
spec fn may_follow(a: NodeClass, b: NodeClass) -> bool {
    match a {
        Placeholder => b is ByteFilter || b is Slicer,
        ByteFilter => b is ByteFilter || b is Slicer,
        Slicer => b is SegmentFilter || b is Drain,
        SegmentFilter => b is SegmentFilter || b is Drain,
        Drain => false,
    }
}
impl Node {
//@fn src/pipeline.rs Node::class
//@spec
    ensures res == class_of(*self)
//@end
//@fn src/pipeline.rs Node::precedes
//@spec
    ensures res == may_follow(class_of(*self), class_of(*next))
//@end
}
// ---- from the options to the steps
ghost enum Step {
    Cat, Zip, Inplace,
    Cut(Seq<char>), Clipper(ClipperParams), Patch(Seq<char>), Tee,
    Width(ConstSlicerParams), Find(Seq<char>), Slice(Seq<char>), Guide(Seq<char>), Walk(Seq<char>),
    Regex(Seq<char>), Bridge(Seq<char>), Merge(usize), Extend(Seq<char>), Lines(Seq<char>),
    Scatter(Seq<char>), PatchBack(Seq<char>),
}
spec fn step(n: Node) -> Step {
    match n {
        Cat => Step::Cat, Zip => Step::Zip, Inplace => Step::Inplace,
        Cut(s) => Step::Cut(s@), Clipper(p) => Step::Clipper(p), Patch(s) => Step::Patch(s@), Tee => Step::Tee,
        Width(p) => Step::Width(p), Find(s) => Step::Find(s@), Slice(s) => Step::Slice(s@), Guide(s) => Step::Guide(s@), Walk(s) => Step::Walk(s@),
        Regex(s) => Step::Regex(s@), Bridge(s) => Step::Bridge(s@), Merge(n) => Step::Merge(n), Extend(s) => Step::Extend(s@), Lines(s) => Step::Lines(s@),
        Scatter(s) => Step::Scatter(s@), PatchBack(s) => Step::PatchBack(s@),
    }
}
#[verifier::opaque]
spec fn steps(n: Seq<Node>) -> Seq<Step> { Seq::new(n.len(), |i: int| step(n[i])) }
#[verifier::opaque]
spec fn chain(n: Seq<Node>) -> bool { forall|i: int| 0 <= i < n.len() - 1 ==> may_follow(class_of(#[trigger] n[i]), class_of(n[i + 1])) }
proof fn start() ensures chain(Seq::<Node>::empty()), steps(Seq::<Node>::empty()) == Seq::<Step>::empty() { reveal(chain); reveal(steps); assert(steps(Seq::<Node>::empty()) =~= Seq::<Step>::empty()); }
// Vec::push
fn push_node(v: &mut Vec<Node>, n: Node)
    ensures
        final(v)@ == old(v)@.push(n), steps(final(v)@) == steps(old(v)@).push(step(n)),
        chain(old(v)@) && (old(v).len() == 0 || may_follow(class_of(old(v)@.last()), class_of(n))) ==> chain(final(v)@),
        final(v)@.last() == n,
{
    v.push(n);
    proof { reveal(steps); reveal(chain); assert(steps(final(v)@) =~= steps(old(v)@).push(step(n))); }
}
// str::to_string
#[verifier::external_body]
fn own(s: &str) -> (res: String) ensures res@ == s@ { s.to_string() }
#[verifier::external_body]
fn is_blank(s: &String) -> (res: bool) ensures res == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn is_dash(s: &String) -> (res: bool) ensures res == (s@ == seq!['-']) { s == "-" }

spec fn one_mode(m: PipelineArgs) -> bool { !(m.inplace && (m.cat is Some || m.zip is Some)) && !(m.cat is Some && m.zip is Some) }
spec fn one_slicer(m: PipelineArgs) -> bool {
    &&& m.width is Some ==> m.find is None && m.walk is None && m.slice is None && m.guide is None
    &&& m.find is Some ==> m.walk is None && m.slice is None && m.guide is None
    &&& m.walk is Some ==> m.slice is None && m.guide is None
    &&& m.slice is Some ==> m.guide is None
}
spec fn one_drain(m: PipelineArgs) -> bool { !(m.output is Some && m.patch_back is Some) }
// --width 16
spec fn width16() -> ConstSlicerParams { ConstSlicerParams { margin: (0isize, -15isize), open_ended: (false, false), pitch: 16, span: 16 } }
uninterp spec fn format_of(sig: Seq<char>, cols: usize) -> InoutFormat;
spec fn mode(m: PipelineArgs) -> Step { if m.inplace { Step::Inplace } else if m.zip is Some { Step::Zip } else { Step::Cat } }
spec fn word(m: PipelineArgs) -> usize { match (m.cat, m.zip) { (Some(a), _) => a, (None, Some(w)) => w, _ => 1 } }
spec fn slicer(m: PipelineArgs) -> Step {
    if m.width is Some { Step::Width(m.width->0) } else if m.find is Some { Step::Find((m.find->0)@) } else if m.walk is Some { Step::Walk((m.walk->0)@) }
    else if m.slice is Some { Step::Slice((m.slice->0)@) } else if m.guide is Some { Step::Guide((m.guide->0)@) } else { Step::Width(width16()) }
}
spec fn columns(m: PipelineArgs) -> usize { match slicer(m) { Step::Width(p) => p.span, _ => 0 } }
spec fn drain(m: PipelineArgs) -> Step {
    if m.output is Some { Step::Scatter((m.output->0)@) } else if m.patch_back is Some { Step::PatchBack((m.patch_back->0)@) } else { Step::Scatter(seq!['-']) }
}
spec fn to_stdout(m: PipelineArgs) -> bool { match drain(m) { Step::Scatter(f) => f.len() == 0 || f == seq!['-'], _ => false } }
spec fn pads(m: PipelineArgs) -> bool { m.pad is Some && m.pad != Some((0usize, 0usize)) }
// with what is not given left out, whatever the order on the command line
spec fn then(s: Seq<Step>, given: bool, x: Step) -> Seq<Step> { if given { s.push(x) } else { s } }
#[verifier::opaque]
spec fn plan0(m: PipelineArgs) -> Seq<Step> { seq![mode(m)] }
#[verifier::opaque]
spec fn plan1(m: PipelineArgs) -> Seq<Step> { then(plan0(m), m.cut is Some, Step::Cut((m.cut->0)@)) }
#[verifier::opaque]
spec fn plan2(m: PipelineArgs) -> Seq<Step> { then(plan1(m), pads(m), Step::Clipper(ClipperParams { pad: m.pad->0, clip: (0, 0), len: usize::MAX })) }
#[verifier::opaque]
spec fn plan3(m: PipelineArgs) -> Seq<Step> { then(plan2(m), m.patch is Some, Step::Patch((m.patch->0)@)) }
#[verifier::opaque]
spec fn plan4(m: PipelineArgs) -> Seq<Step> { then(plan3(m), m.patch_back is Some, Step::Tee) }
#[verifier::opaque]
spec fn plan5(m: PipelineArgs) -> Seq<Step> { plan4(m).push(slicer(m)) }
#[verifier::opaque]
spec fn plan6(m: PipelineArgs) -> Seq<Step> { then(plan5(m), m.regex is Some, Step::Regex((m.regex->0)@)) }
#[verifier::opaque]
spec fn plan7(m: PipelineArgs) -> Seq<Step> { then(plan6(m), m.invert is Some, Step::Bridge((m.invert->0)@)) }
#[verifier::opaque]
spec fn plan8(m: PipelineArgs) -> Seq<Step> { then(plan7(m), m.extend is Some, Step::Extend((m.extend->0)@)) }
#[verifier::opaque]
spec fn plan9(m: PipelineArgs) -> Seq<Step> { then(plan8(m), m.merge is Some, Step::Merge(m.merge->0)) }
#[verifier::opaque]
spec fn plan10(m: PipelineArgs) -> Seq<Step> { then(plan9(m), m.lines is Some, Step::Lines((m.lines->0)@)) }
#[verifier::opaque]
spec fn plan11(m: PipelineArgs) -> Seq<Step> { plan10(m).push(drain(m)) }
spec fn plan(m: PipelineArgs) -> Seq<Step> { plan11(m) }
spec fn in_format(m: PipelineArgs) -> InoutFormat { match m.in_format { Some(f) => f, None => format_of(seq!['b'], columns(m)) } }
spec fn out_format(m: PipelineArgs) -> InoutFormat {
    match m.out_format { Some(f) => f, None => format_of(if m.inplace && to_stdout(m) { seq!['b'] } else { seq!['x', 'x', 'x'] }, columns(m)) }
}
spec fn refused(m: PipelineArgs) -> bool {
    ||| !one_mode(m) || !one_slicer(m) || !one_drain(m)
    ||| word(m) == 0
    ||| m.filler is Some && m.filler->0 > 255
}
impl ClipperParams {
    // verified in clip
    #[verifier::external_body]
    fn from_raw(pad: Option<(usize, usize)>, seek: Option<usize>, range: Option<Range<usize>>) -> (res: Result<Self>)
        requires
            seek matches Some(s) ==> s == 0,
            range matches Some(r) ==> r.start == 0 && r.end == usize::MAX,
        ensures
            res matches Ok(p) && p.clip == (0usize, 0usize) && p.len == usize::MAX
                && p.pad == (if pad is Some { pad->Some_0 } else { (0usize, 0usize) })
    { unimplemented!() }
}
impl ConstSlicerParams {
    // what it builds: verified in stride; the value for the default is a unit test's (test_const_slicer_params)
    #[verifier::external_body]
    fn from_raw(pitch: usize, expr: Option<&str>) -> (res: Result<Self>)
        ensures pitch == 16 && expr is None ==> (res matches Ok(q) && q == width16())
    { unimplemented!() }
//@fn src/segment/stride.rs ConstSlicerParams::columns
//@spec
    ensures res == self.span
//@end
}
impl InoutFormat {
    #[verifier::external_body]
    fn from_str_with_columns(sig: &str, cols: usize) -> (res: Result<Self>)
        ensures res matches Ok(f) ==> f == format_of(sig@, cols), sig@ == seq!['b'] || sig@ == seq!['x', 'x', 'x'] ==> res is Ok
    { unimplemented!() }
    // derive(Clone)
    #[verifier::external_body]
    fn copy(&self) -> (res: Self) ensures res == *self { unimplemented!() }
}
proof fn lemma_plan(m: PipelineArgs)
    ensures
        plan(m).len() >= 3, plan(m)[0] == mode(m), plan(m).last() == drain(m),
        plan(m).last() is PatchBack ==> plan(m).contains(Step::Tee),
{
    reveal(plan0); reveal(plan1); reveal(plan2); reveal(plan3); reveal(plan4); reveal(plan5);
    reveal(plan6); reveal(plan7); reveal(plan8); reveal(plan9); reveal(plan10); reveal(plan11);
    assert(plan0(m).len() == 1 && plan0(m)[0] == mode(m));
    assert(plan1(m).len() >= 1 && plan1(m)[0] == mode(m));
    assert(plan2(m).len() >= 1 && plan2(m)[0] == mode(m));
    assert(plan3(m).len() >= 1 && plan3(m)[0] == mode(m));
    assert(plan4(m).len() >= 1 && plan4(m)[0] == mode(m));
    let n = plan4(m).len() - 1;
    let t = m.patch_back is Some;
    assert(t ==> plan4(m)[n] == Step::Tee);
    assert(plan5(m).len() > n + 1 && plan5(m)[0] == mode(m) && (t ==> plan5(m)[n] == Step::Tee));
    assert(plan6(m).len() > n + 1 && plan6(m)[0] == mode(m) && (t ==> plan6(m)[n] == Step::Tee));
    assert(plan7(m).len() > n + 1 && plan7(m)[0] == mode(m) && (t ==> plan7(m)[n] == Step::Tee));
    assert(plan8(m).len() > n + 1 && plan8(m)[0] == mode(m) && (t ==> plan8(m)[n] == Step::Tee));
    assert(plan9(m).len() > n + 1 && plan9(m)[0] == mode(m) && (t ==> plan9(m)[n] == Step::Tee));
    assert(plan10(m).len() > n + 1 && plan10(m)[0] == mode(m) && (t ==> plan10(m)[n] == Step::Tee));
    assert(plan11(m).len() > n + 1 && plan11(m)[0] == mode(m) && (t ==> plan11(m)[n] == Step::Tee));
}

// ---- from the steps to the stream
ghost struct Setting { word: usize, filler: u8, in_format: InoutFormat, out_format: InoutFormat, patch_format: InoutFormat }
// the bytes of an input: the text is parsed, and what is parsed is aligned
spec fn parsed(c: Setting, s: Source) -> Seq<Stage> {
    if c.in_format.binary() { seq![Stage::Raw(s.id as int, c.word, c.filler)] }
    else if c.in_format.gapless() { seq![Stage::Raw(s.id as int, 1, c.filler), Stage::Gapless(c.word, c.filler, c.in_format)] }
    else { seq![Stage::Raw(s.id as int, 1, c.filler), Stage::Text(c.word, c.filler, c.in_format)] }
}
spec fn all_parsed(c: Setting, s: Seq<Source>) -> Seq<Seq<Stage>> { Seq::new(s.len(), |i: int| parsed(c, s[i])) }
// a file named in an option
spec fn opened(c: Setting, file: Seq<char>) -> Seq<Stage> { seq![Stage::File(file, 1, c.filler)] }
spec fn first_stage(c: Setting, srcs: Seq<Source>, s: Step) -> Seq<Stage> {
    match s {
        Step::Zip => seq![Stage::Zip(all_parsed(c, srcs), c.word)],
        Step::Inplace => parsed(c, srcs.last()),
        _ => seq![Stage::Cat(all_parsed(c, srcs))],
    }
}
// gaps and ends after the last range
spec fn wider(n: Step) -> bool { n is Bridge || n is Extend }
// what a step adds: `tee` is the stream at the cache, `full` tells that the ranges are not all
spec fn stage(c: Setting, tee: Seq<Stage>, full: bool, x: Step) -> Stage {
    match x {
        Step::Cut(e) => Stage::Cut(e),
        Step::Clipper(p) => Stage::Clip(p, c.filler),
        Step::Patch(f) => Stage::Patch(opened(c, f), c.patch_format),
        Step::Tee => Stage::Tee,
        Step::Width(p) => Stage::Width(p),
        Step::Find(e) => Stage::Find(e),
        Step::Slice(e) => Stage::Slice(e, full),
        Step::Guide(f) => Stage::Guide(opened(c, f)),
        Step::Walk(e) => Stage::Walk(e),
        Step::Regex(e) => Stage::Regex(e),
        Step::Bridge(e) => Stage::Bridge(e),
        Step::Merge(n) => Stage::Merge(n),
        Step::Extend(e) => Stage::Extend(e),
        Step::Lines(e) => Stage::Lines(e),
        Step::Scatter(f) => Stage::Scatter(f, c.out_format),
        Step::PatchBack(e) => Stage::PatchBack(tee, e, c.patch_format),
        _ => Stage::Tee,
    }
}
#[verifier::opaque]
spec fn any_wider(s: Seq<Step>) -> bool { exists|i: int| 0 <= i < s.len() && wider(#[trigger] s[i]) }
// the stream after the first k + 1 steps: the steps in their order
#[verifier::opaque]
spec fn built(c: Setting, srcs: Seq<Source>, s: Seq<Step>, k: int) -> Seq<Stage>
    decreases k, 0int
{
    if k <= 0 { first_stage(c, srcs, s[0]) } else { built(c, srcs, s, k - 1).push(stage(c, cached(c, srcs, s, k - 1), any_wider(s), s[k])) }
}
// the stream at the last cache
#[verifier::opaque]
spec fn cached(c: Setting, srcs: Seq<Source>, s: Seq<Step>, k: int) -> Seq<Stage>
    decreases k, 1int
{
    if k <= 0 { Seq::empty() } else if s[k] is Tee { built(c, srcs, s, k) } else { cached(c, srcs, s, k - 1) }
}
#[verifier::opaque]
spec fn no_tee(s: Seq<Step>, k: int) -> bool { forall|j: int| 1 <= j < k ==> !(#[trigger] s[j] is Tee) }
proof fn lemma_built(c: Setting, srcs: Seq<Source>, n: Seq<Node>, k: int)
    requires chain(n), 1 <= k < n.len(), class_of(n[0]) is Placeholder, class_of(n.last()) is Drain, n.last() is PatchBack ==> steps(n).contains(Step::Tee),
    ensures
        built(c, srcs, steps(n), k) == built(c, srcs, steps(n), k - 1).push(stage(c, cached(c, srcs, steps(n), k - 1), any_wider(steps(n)), step(n[k]))),
        cached(c, srcs, steps(n), k) == (if step(n[k]) is Tee { built(c, srcs, steps(n), k) } else { cached(c, srcs, steps(n), k - 1) }),
        may_follow(class_of(n[k - 1]), class_of(n[k])),
        class_of(n[k]) is Drain ==> k == n.len() - 1,
        no_tee(steps(n), k + 1) == (no_tee(steps(n), k) && !(n[k] is Tee)),
        n[k] is PatchBack ==> !no_tee(steps(n), k),
{
    reveal(built); reveal(cached); reveal(chain); reveal(steps); reveal(no_tee);
    let s = steps(n);
    assert(s[k] == step(n[k]));
    assert(may_follow(class_of(n[k - 1]), class_of(n[k])));
    if k < n.len() - 1 { assert(may_follow(class_of(n[k]), class_of(n[k + 1]))); }
    if n[k] is PatchBack {
        let q = choose|q: int| 0 <= q < s.len() && s[q] == Step::Tee;
        assert(s[q] == step(n[q]) && s[q] is Tee && q != k && q != 0);
    }
    if no_tee(s, k) && !(n[k] is Tee) { assert forall|j: int| 1 <= j < k + 1 implies !(#[trigger] s[j] is Tee) by {} }
    if no_tee(s, k + 1) { assert(!(s[k] is Tee)); }
}
proof fn lemma_first(c: Setting, srcs: Seq<Source>, n: Seq<Node>)
    requires n.len() > 0
    ensures built(c, srcs, steps(n), 0) == first_stage(c, srcs, step(n[0])), no_tee(steps(n), 1)
{
    reveal(built); reveal(steps); reveal(no_tee);
}
proof fn lemma_wider(n: Seq<Node>, full: bool)
    requires full ==> exists|q: int| 0 <= q < n.len() && wider(step(#[trigger] n[q])), !full ==> forall|q: int| 0 <= q < n.len() ==> !wider(step(#[trigger] n[q])),
    ensures full == any_wider(steps(n))
{
    reveal(steps); reveal(any_wider);
    let s = steps(n);
    if full { let q = choose|q: int| 0 <= q < n.len() && wider(step(#[trigger] n[q])); assert(s[q] == step(n[q])); }
    else { assert forall|q: int| 0 <= q < s.len() implies !wider(#[trigger] s[q]) by { assert(!wider(step(n[q]))); } }
}
// std::fs::File::open and RawStream::new(.., 1, filler)
#[verifier::external_body]
fn open_raw(file: &str, align: usize, filler: u8) -> (res: Result<Box<dyn ByteStream>>)
    ensures res matches Ok(r) ==> r.stages() == seq![Stage::File(file@, align, filler)]
{ unimplemented!() }
// Iterator::map and collect
#[verifier::external_body]
fn map_sources<F: Fn(Source) -> Box<dyn ByteStream>>(v: Vec<Source>, f: F) -> (res: Vec<Box<dyn ByteStream>>)
    requires forall|x: Source| call_requires(f, (x,)),
    ensures res.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> call_ensures(f, (v[i],), #[trigger] res[i]),
{ v.into_iter().map(f).collect() }
// Iterator::any
#[verifier::external_body]
fn any_node<F: Fn(&Node) -> bool>(v: &Vec<Node>, f: F) -> (res: bool)
    requires forall|x: &Node| call_requires(f, (x,)),
    ensures
        res ==> exists|i: int| 0 <= i < v.len() && #[trigger] call_ensures(f, (&v[i],), true),
        !res ==> forall|i: int| 0 <= i < v.len() ==> call_ensures(f, (&#[trigger] v[i],), false),
{ v.iter().any(f) }
//@struct src/pipeline.rs NodeInstance

//@struct src/pipeline.rs Pipeline
impl Pipeline {
    spec fn setting(&self) -> Setting { Setting { word: self.word_size, filler: self.filler, in_format: self.in_format, out_format: self.out_format, patch_format: self.patch_format } }
    spec fn ready(&self) -> bool {
        &&& self.nodes.len() >= 2 && chain(self.nodes@)
        &&& class_of(self.nodes@[0]) is Placeholder && class_of(self.nodes@.last()) is Drain
        &&& self.nodes@.last() is PatchBack ==> steps(self.nodes@).contains(Step::Tee)
    }
//@fn src/pipeline.rs Pipeline::build_parser
//@sig fn build_parser(&self, source: Source) -> Box<dyn ByteStream>
//@spec
    ensures res.stages() == parsed(self.setting(), source)
//@entry
        proof { assert forall|x: Stage, y: Stage| #[trigger] seq![x].push(y) == seq![x, y] by { assert(seq![x].push(y) =~= seq![x, y]); } }
//@end
//@fn src/pipeline.rs Pipeline::open_file
//@subst `let file: Box<dyn Read + Send> = if file == "-" { Box::new(std::io::stdin()) } else { Box::new(std::fs::File::open(file)?) };` => ``
//@subst `Ok(Box::new(RawStream::new(file, 1, self.filler)))` => `open_raw(file, 1, self.filler)`
//@spec
    ensures res matches Ok(r) ==> r.stages() == opened(self.setting(), file@)
//@end
//@fn src/pipeline.rs Pipeline::spawn_stream
//@sig fn spawn_stream(&self, sources: Vec<Source>) -> Result<Box<dyn ByteStream>>
//@subst `let mut sources: Vec<_> = sources.into_iter().map(|x| self.build_parser(x)).collect();` => `let mut sources: Vec<Box<dyn ByteStream>> = map_sources(sources, |x: Source| -> (r: Box<dyn ByteStream>) ensures r.stages() == parsed(self.setting(), x) { self.build_parser(x) });`
//@subst `let mut cache = None;` => `let mut cache: Option<Box<TeeStreamReader>> = None;`
//@subst `for next in &self.nodes[1..] {` => `let mut i: usize = 1; while i < self.nodes.len() { let next = &self.nodes[i]; i += 1;`
//@subst `(cache, node) = match (next, node) {` => `let t: (Option<Box<TeeStreamReader>>, NodeInstance) = match (next, node) {`
//@subst `(next, _) => return Err(anyhow!("unallowed node {:?} found after (internal error)", next)), };` => `(next, _) => { proof { assert(false); } return Err(anyhow!("unallowed node {:?} found after (internal error)", next)) } }; cache = t.0; node = t.1;`
//@subst `self.nodes.iter().any(|x| matches!(x,` => `any_node(&self.nodes, |x: &Node| -> (r: bool) ensures r == wider(step(*x)) { matches!(x,`
//@subst `)); let next = Box::new(RangeSlicer::new(prev, exprs)?` => `) }); let next = Box::new(RangeSlicer::new(prev, exprs)?`
//@spec
    requires
        self.ready(),
        self.nodes@[0] is Inplace ==> sources.len() > 0,
    ensures res matches Ok(r) ==> r.stages() == built(self.setting(), sources@, steps(self.nodes@), self.nodes.len() - 1)
//@entry
        let ghost srcs = sources@;
        let ghost (c, st) = (self.setting(), steps(self.nodes@));
//@loop 1
            invariant
                1 <= i <= self.nodes.len(), self.ready(), c == self.setting(), st == steps(self.nodes@),
                (match node { NodeInstance::Byte(x) => x.stages(), NodeInstance::Segment(x) => x.stages() }) == built(c, srcs, st, i - 1),
                node is Byte <==> !(class_of(self.nodes@[i - 1]) is Slicer || class_of(self.nodes@[i - 1]) is SegmentFilter),
                i < self.nodes.len() && cache is None ==> no_tee(st, i as int),
                i < self.nodes.len() && cache is Some ==> (cache->0).g@ == cached(c, srcs, st, i - 1),
            decreases self.nodes.len() - i
//@beforeloop 1
        proof {
            lemma_first(c, srcs, self.nodes@);
            assert(all_parsed(c, srcs) =~= srcs_of(parsed0));
        }
//@loopstart 1
                proof { lemma_built(c, srcs, self.nodes@, i as int); }
//@before `let mut cache:`
        let ghost parsed0 = sources@;
//@before `let next = Box::new(RangeSlicer::new(prev, exprs)?`
        proof { lemma_wider(self.nodes@, full_scan); }
//@end
//@fn src/pipeline.rs Pipeline::from_args
//@subst `let mut nodes = Vec::new();` => `let mut nodes: Vec<Node> = Vec::new();`
//@subst `nodes.push(` => `push_node(&mut nodes,` *
//@subst `exprs.to_string()` => `own(exprs.as_str())` ?
//@subst `file.to_string()` => `own(file.as_str())` ?
//@subst `pattern.to_string()` => `own(pattern.as_str())` ?
//@subst `invert.to_string()` => `own(invert.as_str())` ?
//@subst `extend.to_string()` => `own(extend.as_str())` ?
//@subst `command.to_string()` => `own(command.as_str())` ?
//@subst `"-".to_string()` => `own("-")` ?
//@subst `file.is_empty()` => `is_blank(file)` ?
//@subst `file == "-"` => `is_dash(file)` ?
//@subst `pad != (0, 0)` => `(pad.0 != 0 || pad.1 != 0)` ?
//@subst `m.in_format.clone().unwrap_or_else(|| InoutFormat::from_str_with_columns(default_in_signature, cols).unwrap())` => `match &m.in_format { Some(f) => f.copy(), None => InoutFormat::from_str_with_columns(default_in_signature, cols).unwrap() }`
//@subst `m.out_format.clone().unwrap_or_else(|| InoutFormat::from_str_with_columns(default_out_signature, cols).unwrap())` => `match &m.out_format { Some(f) => f.copy(), None => InoutFormat::from_str_with_columns(default_out_signature, cols).unwrap() }`
//@spec
    ensures
        res is Ok ==> !refused(*m),
        res matches Ok(p) ==> steps(p.nodes@) == plan(*m),
        res matches Ok(p) ==> p.word_size == word(*m) && p.filler == (match m.filler { Some(f) => f, None => 0 }),
        res matches Ok(p) ==> p.in_format == in_format(*m),
        res matches Ok(p) ==> p.out_format == out_format(*m),
        res matches Ok(p) ==> p.patch_format == format_of(seq!['x', 'x', 'x'], columns(*m)),
        res matches Ok(p) ==> p.ready(),
        res is Err ==> refused(*m),
//@before `push_node(&mut nodes, node);` 1
        proof { start(); assert(nodes@ =~= Seq::<Node>::empty()); }
//@before `if let Some(exprs) = &m.cut {`
        proof {
            assert(one_mode(*m) && word_size == word(*m));
            reveal(plan0);
            assert(Seq::<Step>::empty().push(mode(*m)) =~= seq![mode(*m)]);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan0(*m) && (class_of(nodes@.last()) is Placeholder || class_of(nodes@.last()) is ByteFilter));
        }
//@before `if let Some(pad) = m.pad {`
        proof {
            reveal(plan1);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan1(*m) && (class_of(nodes@.last()) is Placeholder || class_of(nodes@.last()) is ByteFilter));
        }
//@before `if let Some(file) = &m.patch {`
        proof {
            reveal(plan2);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan2(*m) && (class_of(nodes@.last()) is Placeholder || class_of(nodes@.last()) is ByteFilter));
        }
//@before `if m.patch_back.is_some() {`
        proof {
            reveal(plan3);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan3(*m) && (class_of(nodes@.last()) is Placeholder || class_of(nodes@.last()) is ByteFilter));
        }
//@before `let (cols, node) =`
        proof {
            reveal(plan4);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan4(*m) && (class_of(nodes@.last()) is Placeholder || class_of(nodes@.last()) is ByteFilter));
        }
//@before `if let Some(pattern) = &m.regex {`
        proof {
            assert(one_slicer(*m) && cols == columns(*m));
            reveal(plan5);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan5(*m) && (class_of(nodes@.last()) is Slicer || class_of(nodes@.last()) is SegmentFilter));
        }
//@before `if let Some(invert) = &m.invert {`
        proof {
            reveal(plan6);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan6(*m) && (class_of(nodes@.last()) is Slicer || class_of(nodes@.last()) is SegmentFilter));
        }
//@before `if let Some(extend) = &m.extend {`
        proof {
            reveal(plan7);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan7(*m) && (class_of(nodes@.last()) is Slicer || class_of(nodes@.last()) is SegmentFilter));
        }
//@before `if let Some(thresh) = m.merge {`
        proof {
            reveal(plan8);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan8(*m) && (class_of(nodes@.last()) is Slicer || class_of(nodes@.last()) is SegmentFilter));
        }
//@before `if let Some(exprs) = &m.lines {`
        proof {
            reveal(plan9);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan9(*m) && (class_of(nodes@.last()) is Slicer || class_of(nodes@.last()) is SegmentFilter));
        }
//@before `let (written_back, node) =`
        proof {
            reveal(plan10);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan10(*m) && (class_of(nodes@.last()) is Slicer || class_of(nodes@.last()) is SegmentFilter));
        }
//@before `let default_in_signature =`
        proof {
            assert(one_drain(*m));
            assert(!(drain(*m) is PatchBack) ==> written_back == to_stdout(*m));
            reveal(plan11);
            reveal_strlit("-");
            assert("-"@ =~= seq!['-']);
            assert(chain(nodes@) && nodes.len() > 0 && steps(nodes@) == plan(*m));
        }
//@before `let in_format =`
        proof {
            assert(written_back == to_stdout(*m));
            reveal_strlit("b");
            reveal_strlit("xxx");
            assert("b"@ =~= seq!['b']);
            assert("xxx"@ =~= seq!['x', 'x', 'x']);
            assert(default_out_signature@ == (if m.inplace && to_stdout(*m) { seq!['b'] } else { seq!['x', 'x', 'x'] }));
        }
//@before `let pipeline = Pipeline {`
        proof {
            lemma_plan(*m);
            reveal(steps);
            assert(step(nodes@[0]) == plan(*m)[0] && step(nodes@.last()) == plan(*m).last());
            assert(in_format == crate::in_format(*m));
            assert(out_format == crate::out_format(*m));
        }
//@end
//@fn src/pipeline.rs Pipeline::validate
//@subst `for x in self.nodes.windows(2) {` => `let mut i: usize = 1; while i < self.nodes.len() { let x = [&self.nodes[i - 1], &self.nodes[i]]; i += 1;`
//@spec
    ensures res is Ok <==> self.word_size > 0 && chain(self.nodes@)
//@loop 1
            invariant
                1 <= i, self.word_size > 0, i <= self.nodes.len() || self.nodes.len() == 0,
                forall|k: int| 0 <= k < i - 1 ==> may_follow(class_of(#[trigger] self.nodes@[k]), class_of(self.nodes@[k + 1])),
            decreases self.nodes.len() - i
//@loopstart 1
                proof { reveal(chain); }
//@afterloop 1
        proof { reveal(chain); }
//@end
}
