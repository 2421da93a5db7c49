// ---------------------------------------------------------------------------
// The parts of `deser` the serializer calls.  The contract of `next` is what
// C17 establishes for SerializeDriver: events come one after the other from
// one fixed, well-formed sequence.
// ---------------------------------------------------------------------------
pub trait Serialize {}
pub trait Descriptor {}
#[verifier::external_body]
pub struct SerializerState<'a> { _p: std::marker::PhantomData<&'a ()> }
/// All events of a value.
pub uninterp spec fn trace_of(v: &dyn Serialize) -> Seq<Ev>;

#[verifier::external_body]
pub struct SerializeDriver<'a> { _p: std::marker::PhantomData<&'a ()> }
impl<'a> SerializeDriver<'a> {
    pub uninterp spec fn trace(&self) -> Seq<Ev>;
    pub uninterp spec fn seen(&self) -> int;
    #[verifier::external_body]
    pub fn new(value: &'a dyn Serialize) -> (r: SerializeDriver<'a>)
        ensures r.trace() == trace_of(value), r.seen() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<Option<(Event, &dyn Descriptor, &SerializerState)>, Error>)
        requires 0 <= old(self).seen() <= old(self).trace().len(),
        ensures
            final(self).trace() == old(self).trace(),
            match r {
                Ok(Some((e, _, _))) => old(self).seen() < old(self).trace().len() && ev(e) == old(self).trace()[old(self).seen()] && final(self).seen() == old(self).seen() + 1,
                Ok(None) => old(self).seen() == old(self).trace().len() && final(self).seen() == old(self).seen(),
                Err(e) => driver_error(e),
            },
    { unimplemented!() }
}
/// The error came from the value that was serialized.
pub uninterp spec fn driver_error(e: Error) -> bool;

#[verifier::external_body]
pub fn vf_str_slice(s: &str, a: usize, b: usize) -> (r: &str)
    requires
        a <= b <= vstd::utf8::encode_utf8(s@).len(),
        vstd::utf8::is_char_boundary(vstd::utf8::encode_utf8(s@), a as int),
        vstd::utf8::is_char_boundary(vstd::utf8::encode_utf8(s@), b as int),
    ensures vstd::utf8::encode_utf8(r@) == vstd::utf8::encode_utf8(s@).subrange(a as int, b as int), r@ == run_text(s@, a as int, b as int),
{ &s[a..b] }

pub broadcast axiom fn ax_display_f64(x: &f64, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<f64>(x, s) && is_fin(*x) ==> s@ == float_text(*x);
#[verifier::external_body]
pub fn vf_is_finite(x: f64) -> (r: bool) ensures r == is_fin(x) { x.is_finite() }
#[verifier::external_body]
pub fn vf_is_nan(x: f64) -> (r: bool) ensures r ==> !is_fin(x) { x.is_nan() }
#[verifier::external_body]
pub fn vf_is_infinite(x: f64) -> (r: bool) ensures r ==> !is_fin(x) { x.is_infinite() }
