// ---------------------------------------------------------------------------
// The parts of the `deser` crate the JSON parser calls, with the contracts the
// parser relies on.  `emit` is the contract that C18 establishes for DeserializeDriver.
// ---------------------------------------------------------------------------
// The From conversions into Event follow, from the table of specs/conv.py (C27).

pub trait Deserialize: Sized {}

#[verifier::external_body]
pub struct DeserializeDriver<'a> { _p: std::marker::PhantomData<&'a ()> }
impl<'a> DeserializeDriver<'a> {
    /// Events delivered so far.
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    /// Some delivery was refused by the target.
    pub uninterp spec fn refused(&self) -> bool;
    #[verifier::external_body]
    pub fn new<T: Deserialize>(out: &'a mut Option<T>) -> (r: Self)
        ensures r.log() == Seq::<Ev>::empty(), !r.refused(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn emit<'e>(&mut self, e: Event<'e>) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> final(self).log() == old(self).log().push(ev(e)) && final(self).refused() == old(self).refused(),
            r is Err ==> final(self).refused(),
    { unimplemented!() }
}
