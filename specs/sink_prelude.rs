// ---- the sink protocol -------------------------------------------------
// A handle is opaque here (its three variants and its Deref are contracted in
// the unit `handles`); what is known about one is stated by these predicates.
pub enum Call {
    Atom(Ev),
    Map,
    Seq,
    NextKey,
    NextValue,
    ValueForKey(Seq<char>),
    Finish,
}
#[verifier::external_body]
pub struct DeserializerState<'a> { _p: std::marker::PhantomData<&'a u8> }
pub trait Descriptor {}
#[verifier::external_body]
pub struct SinkHandle<'a> { _p: Box<dyn Sink + 'a> }

/// h owns the sink s / h borrows the sink behind m / h ignores everything.
pub uninterp spec fn owns<S>(h: SinkHandle<'_>, s: S) -> bool;
pub uninterp spec fn borrows<S>(h: SinkHandle<'_>, m: &mut S) -> bool;
pub uninterp spec fn ignores(h: SinkHandle<'_>) -> bool;
/// One call c on the sink behind a handle turned it from pre into post and returned r.
pub uninterp spec fn did(pre: SinkHandle<'_>, c: Call, r: Result<(), Error>, post: SinkHandle<'_>) -> bool;
pub uninterp spec fn gave(pre: SinkHandle<'_>, c: Call, r: Result<SinkHandle<'_>, Error>, post: SinkHandle<'_>) -> bool;
pub uninterp spec fn gave_opt(pre: SinkHandle<'_>, c: Call, r: Result<Option<SinkHandle<'_>>, Error>, post: SinkHandle<'_>) -> bool;

pub open spec fn same<S: ?Sized>(a: &S, b: &S) -> bool { a == b }
pub open spec fn unexpected(r: Result<(), Error>) -> bool { r is Err && r->Err_0.kind_of() == ErrorKind::Unexpected }

impl<'a> SinkHandle<'a> {
    #[verifier::external_body]
    pub fn boxed<S: Sink + 'a>(val: S) -> (r: SinkHandle<'a>) ensures owns(r, val) { unimplemented!() }
    #[verifier::external_body]
    pub fn null() -> (r: SinkHandle<'a>) ensures ignores(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_borrowed<S: Sink>(val: &'a mut S) -> (r: SinkHandle<'a>) ensures borrows(r, val) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_is_null(&self) -> (r: bool) ensures r == ignores(*self) { unimplemented!() }
    // the methods a handle forwards to its sink through Deref / DerefMut
    #[verifier::external_body]
    pub fn atom(&mut self, atom: Atom, state: &DeserializerState) -> (r: Result<(), Error>) ensures did(*old(self), Call::Atom(atom_ev(atom)), r, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn map(&mut self, state: &DeserializerState) -> (r: Result<(), Error>) ensures did(*old(self), Call::Map, r, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn seq(&mut self, state: &DeserializerState) -> (r: Result<(), Error>) ensures did(*old(self), Call::Seq, r, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_key(&mut self, state: &DeserializerState) -> (r: Result<SinkHandle<'_>, Error>) ensures gave(*old(self), Call::NextKey, r, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_value(&mut self, state: &DeserializerState) -> (r: Result<SinkHandle<'_>, Error>) ensures gave(*old(self), Call::NextValue, r, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn value_for_key(&mut self, key: &str, state: &DeserializerState) -> (r: Result<Option<SinkHandle<'_>>, Error>) ensures gave_opt(*old(self), Call::ValueForKey(key@), r, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self, state: &DeserializerState) -> (r: Result<(), Error>) ensures did(*old(self), Call::Finish, r, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn descriptor(&self) -> &dyn Descriptor { unimplemented!() }
    #[verifier::external_body]
    pub fn expecting(&self) -> Cow<'_, str> { unimplemented!() }
}

// ---- owned sinks (deser/src/de/owned.rs; unit handles proves these of the code, ----
// up to naming the slot's content through the handle) --------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OwnedSink<T> { _p: Vec<T> }
/// What the slot behind a handle holds at this moment.
pub uninterp spec fn slot_now<T>(h: SinkHandle<'_>) -> Option<T>;
impl<T> OwnedSink<T> {
    pub uninterp spec fn handle(self) -> SinkHandle<'static>;
}
impl<T: Deserialize> OwnedSink<T> {
    #[verifier::external_body]
    pub fn deserialize() -> (r: OwnedSink<T>) ensures owned_fresh(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: &SinkHandle<'_>) ensures *r == self.handle() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut(&mut self) -> (r: &mut SinkHandle<'_>) ensures *r == old(self).handle(), final(self).handle() == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Option<T>) ensures r == slot_now::<T>(old(self).handle()) { unimplemented!() }
}
/// A fresh owned sink is one that feeds an empty slot of its own.
#[verifier::prophetic]
pub open spec fn owned_fresh<T: Deserialize>(o: OwnedSink<T>) -> bool { exists|fin: Option<T>| T::feeds(o.handle(), None, fin) }

// ---- helpers --------------------------------------------------------------
#[verifier::external_body]
pub fn vf_format() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vf_panic() -> ! requires false { panic!() }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => seq![] } }

/// T is u8 (the only type whose __private_is_bytes returns true).
pub uninterp spec fn is_u8<T>() -> bool;
pub uninterp spec fn byte_as<T>(b: u8) -> T;
pub axiom fn ax_u8() ensures is_u8::<u8>(), forall|b: u8| #[trigger] byte_as::<u8>(b) == b;
pub open spec fn bytes_as<T>(b: Seq<u8>) -> Seq<T> { Seq::new(b.len(), |i: int| byte_as::<T>(b[i])) }
