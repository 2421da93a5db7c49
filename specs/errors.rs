// ---- what is shown -----------------------------------------------------
/// R-text: `{}` of a value; strings are shown as they are.
pub trait VfShow { spec fn text(&self) -> Seq<char>; fn vf_show(&self) -> (r: String) ensures r@ == self.text(); }
impl VfShow for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vf_show(&self) -> (r: String) { unimplemented!() } }
impl VfShow for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vf_show(&self) -> (r: String) { unimplemented!() } }
impl<'a> VfShow for Cow<'a, str> { open spec fn text(&self) -> Seq<char> { cow_str(*self) } #[verifier::external_body] fn vf_show(&self) -> (r: String) { unimplemented!() } }
impl<'a, T: VfShow + ?Sized> VfShow for &'a T { open spec fn text(&self) -> Seq<char> { (**self).text() } #[verifier::external_body] fn vf_show(&self) -> (r: String) { unimplemented!() } }
/// `{:?}` of a kind: derived, so the name of the variant.
pub open spec fn kind_text(k: ErrorKind) -> Seq<char> {
    match k {
        ErrorKind::UnsupportedType => "UnsupportedType"@,
        ErrorKind::Unexpected => "Unexpected"@,
        ErrorKind::MissingField => "MissingField"@,
        ErrorKind::OutOfRange => "OutOfRange"@,
        ErrorKind::WrongLength => "WrongLength"@,
        ErrorKind::EndOfFile => "EndOfFile"@,
    }
}
impl ErrorKind {
    #[verifier::external_body]
    pub fn vf_debug(&self) -> (r: String) ensures r@ == kind_text(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_lit(x: &str) -> (r: String) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn vf_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub struct FmtError { _p: () }
#[verifier::external_body]
pub struct Fmt { _p: () }
impl Fmt {
    /// What was written so far.
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_write(&mut self, s: String) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
}
// ---- messages and sources ----------------------------------------------
/// R-into: the text of what is turned into a message.
pub uninterp spec fn text_of<M>(m: M) -> Seq<char>;
pub broadcast axiom fn ax_text_string(m: String) ensures #[trigger] text_of::<String>(m) == m@;
pub broadcast axiom fn ax_text_str(m: &'static str) ensures #[trigger] text_of::<&'static str>(m) == m@;
pub broadcast axiom fn ax_text_cow(m: Cow<'static, str>) ensures #[trigger] text_of::<Cow<'static, str>>(m) == cow_str(m);
#[verifier::external_body]
pub fn vf_into<M: Into<Cow<'static, str>>>(m: M) -> (r: Cow<'static, str>) ensures cow_str(r) == text_of(m) { unimplemented!() }
/// R-dyn: a source behind its trait object; the object is determined by the value.
#[verifier::external_body]
pub struct DynErr { _p: () }
pub trait StdError {}
pub uninterp spec fn dyn_err<E>(e: E) -> DynErr;
#[verifier::external_body]
pub fn vf_dyn_err<E: StdError>(e: E) -> (r: Box<DynErr>) ensures *r == dyn_err(e) { unimplemented!() }
#[verifier::external_body]
pub fn vf_dyn_ref(e: &Box<DynErr>) -> (r: &DynErr) ensures *r == **e { unimplemented!() }
impl Error {
    pub closed spec fn vf_kind(&self) -> ErrorKind { self.kind }
    pub closed spec fn vf_msg(&self) -> Seq<char> { cow_str(self.msg) }
    pub closed spec fn vf_source(&self) -> Option<DynErr> { match self.source { Some(b) => Some(*b), None => None } }
}
pub open spec fn is_error(e: Error, kind: ErrorKind, msg: Seq<char>) -> bool { e.vf_kind() == kind && e.vf_msg() == msg && e.vf_source() is None }
pub open spec fn unexpected_text(got: Seq<char>, expected: Seq<char>) -> Seq<char> { "unexpected "@ + got + ", expected "@ + expected }
pub open spec fn refused<T>(r: Result<T, Error>, got: Seq<char>, expected: Seq<char>) -> bool { r is Err && is_error(r->Err_0, ErrorKind::Unexpected, unexpected_text(got, expected)) }
pub open spec fn atom_name(a: Atom) -> Seq<char> {
    match a {
        Atom::Null => "null"@,
        Atom::Bool(_) => "bool"@,
        Atom::Str(_) => "string"@,
        Atom::Bytes(_) => "bytes"@,
        Atom::Char(_) => "char"@,
        Atom::U64(_) => "unsigned integer"@,
        Atom::I64(_) => "signed integer"@,
        Atom::F64(_) => "float"@,
    }
}
// ---- a sink that implements nothing but what it expects, one that implements
// nothing but its descriptor, one that hands `expecting` on --------------
#[verifier::external_body]
pub struct DeserializerState<'a> { _p: std::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct SinkHandle<'a> { _p: std::marker::PhantomData<&'a u8> }
impl<'a> SinkHandle<'a> {
    pub uninterp spec fn ignores(&self) -> bool;
    /// unit handles
    #[verifier::external_body]
    pub fn null() -> (r: SinkHandle<'a>) ensures r.ignores() { unimplemented!() }
}
#[verifier::external_body]
pub struct VfDsc { _p: () }
impl VfDsc {
    pub uninterp spec fn name_of(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.name_of() == Some(x@), None => self.name_of() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct VfSink { _p: () }
impl VfSink {
    pub uninterp spec fn expects(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn expecting(&self) -> (r: Cow<'_, str>) ensures cow_str(r) == self.expects() { unimplemented!() }
}
#[verifier::external_body]
pub struct VfNamed { _p: () }
impl VfNamed {
    pub uninterp spec fn dsc(&self) -> VfDsc;
    #[verifier::external_body]
    pub fn descriptor(&self) -> (r: &VfDsc) ensures *r == self.dsc() { unimplemented!() }
}
pub struct VfFwd { pub sink: VfInner }
#[verifier::external_body]
pub struct VfInner { _p: () }
impl VfInner {
    pub uninterp spec fn expects(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn expecting(&self) -> (r: Cow<'_, str>) ensures cow_str(r) == self.expects() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: &VfInner) ensures *r == *self { unimplemented!() }
}
