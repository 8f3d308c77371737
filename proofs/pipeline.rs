//@include prelude.rs
//@include inout.inc
#[derive(Clone, Copy)]
//@struct src/byte/clip.rs ClipperParams
#[derive(Clone, Copy)]
//@struct src/segment/stride.rs ConstSlicerParams
//@struct src/pipeline.rs PipelineArgs
//@struct src/pipeline.rs Node
//@struct src/pipeline.rs NodeClass
use Node::*;
use NodeClass::*;
//@include pipeline.inc
} // verus!
