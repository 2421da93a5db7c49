pub open spec fn atom_ev(a: Atom) -> Ev {
    match a {
        Atom::Null => Ev::Null,
        Atom::Bool(b) => Ev::Bool(b),
        Atom::Str(s) => Ev::Str(cow_str(s)),
        Atom::Bytes(s) => Ev::Bytes(cow_bytes(s)),
        Atom::Char(c) => Ev::Char(c),
        Atom::U64(x) => Ev::U64(x),
        Atom::I64(x) => Ev::I64(x),
        Atom::F64(x) => Ev::F64(x),
    }
}
pub open spec fn ev(e: Event) -> Ev {
    match e {
        Event::Atom(a) => atom_ev(a),
        Event::MapStart => Ev::MapStart,
        Event::MapEnd => Ev::MapEnd,
        Event::SeqStart => Ev::SeqStart,
        Event::SeqEnd => Ev::SeqEnd,
    }
}

#[verifier::external_body]
pub struct Error { _p: () }
impl Error {
    pub uninterp spec fn kind_of(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn new<M: Into<Cow<'static, str>>>(kind: ErrorKind, msg: M) -> (r: Error) ensures r.kind_of() == kind { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind_of() { unimplemented!() }
}
