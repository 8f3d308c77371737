//@include prelude.rs
//@include evalspec.inc
//@include eval.inc
//@include lex.inc
//@include expr.inc
//@include unique.inc
//@include split.inc
//@include value.inc
} // verus!
