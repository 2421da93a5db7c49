// ---- the serialization protocol -------------------------------------------------
// Handles and boxed emitters are opaque; what is known about one is stated by the
// relations below, which their constructors establish.
#[verifier::external_body]
pub struct SerializerState<'a> { _p: std::marker::PhantomData<&'a u8> }
pub trait Descriptor {}
#[verifier::external_body]
pub struct SerializeHandle<'a> { _p: std::marker::PhantomData<&'a ()> }
/// h stands for the value s.
pub uninterp spec fn refers<S>(h: SerializeHandle<'_>, s: S) -> bool;
/// What is_optional gives through h.
pub uninterp spec fn optional_of(h: SerializeHandle<'_>) -> bool;
impl<'a> SerializeHandle<'a> {
    #[verifier::external_body]
    pub fn to<S: Serialize + 'a>(val: &'a S) -> (r: SerializeHandle<'a>) ensures refers(r, *val), optional_of(r) == val.optional() { unimplemented!() }
    #[verifier::external_body]
    pub fn boxed<S: Serialize + 'a>(val: S) -> (r: SerializeHandle<'a>) ensures refers(r, val), optional_of(r) == val.optional() { unimplemented!() }
}
#[verifier::external_body]
pub struct SeqEm<'a> { _p: std::marker::PhantomData<&'a ()> }
#[verifier::external_body]
pub struct MapEm<'a> { _p: std::marker::PhantomData<&'a ()> }
#[verifier::external_body]
pub struct StructEm<'a> { _p: std::marker::PhantomData<&'a ()> }
pub open spec fn atom_said(r: Result<Chunk<'_>, Error>, e: Ev) -> bool { r matches Ok(Chunk::Atom(a)) && atom_ev(a) == e }
#[verifier::external_body]
pub fn vf_panic() -> ! requires false { panic!() }
