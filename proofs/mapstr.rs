//@include prelude.rs
//@assume evalspec.inc eval
//@assume eval.inc eval
//@assume lex.inc eval
//@assume expr.inc eval
//@assume unique.inc eval
//@include split.inc
//@assume value.inc eval
#[derive(Clone, Copy)]
//@struct src/mapper.rs SegmentMapperAnchor
#[derive(Clone, Copy)]
//@struct src/mapper.rs SegmentMapper
#[derive(Clone, Copy)]
//@struct src/mapper.rs RangeMapperAnchor
#[derive(Clone, Copy)]
//@struct src/mapper.rs RangeMapper
use RangeMapperAnchor::*;
//@include mapstr.inc
} // verus!
