/// Ghost image of an event.
pub enum Ev {
    Null,
    Bool(bool),
    Str(Seq<char>),
    Bytes(Seq<u8>),
    Char(char),
    U64(u64),
    I64(i64),
    F64(f64),
    MapStart,
    MapEnd,
    SeqStart,
    SeqEnd,
}
