// what a text in a format holds
spec fn parseable(f: InoutFormat) -> bool {
    &&& !f.binary()
    &&& f.offset is None || f.offset is Decimal || f.offset is Hexadecimal
    &&& f.span is None || f.span is Decimal || f.span is Hexadecimal
    &&& f.body is None || f.body is Hexadecimal
}
spec fn numeral(c: ColumnFormat) -> PNum { if c is Decimal { PNum::Dec } else { PNum::Hex } }

// the records that a text in this format holds
spec fn text_recs(text: Seq<u8>, format: InoutFormat) -> Seq<Rec> { records_of(numeral(format.offset), numeral(format.span), text) }
