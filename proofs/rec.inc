// a record of a text: place, length of what it stands for, array
pub ghost struct Rec { pub off: nat, pub span: nat, pub body: Seq<u8> }

// offsets and lengths have at most 15 hexadecimal digits
pub spec const MAXNUM: int = 0x1000_0000_0000_0000;     // 2^60
