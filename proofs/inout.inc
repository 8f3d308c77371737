// the format of a text
pub struct StringT { opaque: usize }
//@struct src/text/mod.rs ColumnFormat `Struct(String)` => `Struct(StringT)`
//@struct src/text/mod.rs InoutFormat

impl InoutFormat {
    spec fn gapless(&self) -> bool { self.offset is None && self.span is None }
    spec fn binary(&self) -> bool { self.gapless() && self.body is Binary }
//@fn src/text/mod.rs InoutFormat::is_gapless
//@subst `self.offset == ColumnFormat::None` => `matches!(self.offset, ColumnFormat::None)`
//@subst `self.span == ColumnFormat::None` => `matches!(self.span, ColumnFormat::None)`
//@spec
    ensures res == self.gapless()
//@end
//@fn src/text/mod.rs InoutFormat::is_binary
//@subst `self.body == ColumnFormat::Binary` => `matches!(self.body, ColumnFormat::Binary)`
//@spec
    ensures res == self.binary()
//@end
}
