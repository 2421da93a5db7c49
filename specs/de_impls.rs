pub assume_specification<T: Default>[ std::mem::take ](x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x));
pub assume_specification<'a, B: ?Sized + ToOwned>[ Cow::<'a, B>::into_owned ](c: Cow<'a, B>) -> (r: B::Owned)
    ensures match c { Cow::Borrowed(b) => owned_of::<B>(b) == r, Cow::Owned(o) => o == r };
pub uninterp spec fn owned_of<B: ?Sized + ToOwned>(b: &B) -> B::Owned;
pub broadcast axiom fn ax_owned_str(b: &str) ensures (#[trigger] owned_of::<str>(b))@ == b@;
pub broadcast axiom fn ax_owned_bytes(b: &[u8]) ensures (#[trigger] owned_of::<[u8]>(b))@ == b@;
// core: TryFrom of a type for itself never fails
pub axiom fn ax_try_u64() ensures <u64 as vstd::std_specs::convert::TryFromSpec<u64>>::obeys_try_from_spec(), forall|v: u64| (#[trigger] <u64 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v)) == Ok::<u64, <u64 as TryFrom<u64>>::Error>(v);
pub axiom fn ax_try_i64() ensures <i64 as vstd::std_specs::convert::TryFromSpec<i64>>::obeys_try_from_spec(), forall|v: i64| (#[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v)) == Ok::<i64, <i64 as TryFrom<i64>>::Error>(v);
// core: i64::try_from(u64)
pub axiom fn ax_try_i64_u64() ensures <i64 as vstd::std_specs::convert::TryFromSpec<u64>>::obeys_try_from_spec(), forall|v: u64| ((#[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v)) is Ok <==> v <= i64::MAX), forall|v: u64| v <= i64::MAX ==> (#[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v)) == Ok::<i64, <i64 as TryFrom<u64>>::Error>(v as i64);
pub broadcast group de_std { ax_owned_str, ax_owned_bytes }

#[verifier::prophetic]
pub open spec fn slot_feeds<T>(h: SinkHandle<'_>, init: Option<T>, fin: Option<T>) -> bool {
    exists|m: &mut SlotWrapper<T>| #[trigger] borrows(h, m) && m.0 == init && final(m).0 == fin
}

// conversions to floating point, exactly the `as` casts
pub uninterp spec fn f32_of_u64(x: u64) -> f32;
pub uninterp spec fn f32_of_i64(x: i64) -> f32;
pub uninterp spec fn f32_of_f64(x: f64) -> f32;
pub uninterp spec fn f64_of_u64(x: u64) -> f64;
pub uninterp spec fn f64_of_i64(x: i64) -> f64;
#[verifier::external_body] pub fn vf_f32_u64(x: u64) -> (r: f32) ensures r == f32_of_u64(x) { x as f32 }
#[verifier::external_body] pub fn vf_f32_i64(x: i64) -> (r: f32) ensures r == f32_of_i64(x) { x as f32 }
#[verifier::external_body] pub fn vf_f32_f64(x: f64) -> (r: f32) ensures r == f32_of_f64(x) { x as f32 }
#[verifier::external_body] pub fn vf_f64_u64(x: u64) -> (r: f64) ensures r == f64_of_u64(x) { x as f64 }
#[verifier::external_body] pub fn vf_f64_i64(x: i64) -> (r: f64) ensures r == f64_of_i64(x) { x as f64 }
#[verifier::external_body] pub fn vf_f64_f64(x: f64) -> (r: f64) ensures r == x { x }

// the unsafe reinterpretations, with what makes them sound as preconditions
#[verifier::external_body]
pub fn vf_bytes_as_vec<T>(v: Vec<u8>) -> (r: Vec<T>) requires is_u8::<T>(), ensures r@ == bytes_as::<T>(v@) { unimplemented!() }
#[verifier::external_body]
pub fn vf_bytes_as_array<T, const N: usize>(v: &Cow<[u8]>) -> (r: [T; N]) requires is_u8::<T>(), cow_bytes(*v).len() == N, ensures r@ == bytes_as::<T>(cow_bytes(*v)) { unimplemented!() }
/// [MaybeUninit<T>; N]: the elements that have been written.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VfBuf<T, const N: usize> { _p: Vec<T> }
impl<T, const N: usize> View for VfBuf<T, N> { type V = Map<int, T>; uninterp spec fn view(&self) -> Map<int, T>; }
impl<T, const N: usize> VfBuf<T, N> {
    #[verifier::external_body]
    pub fn vf_uninit() -> (r: VfBuf<T, N>) ensures r@ == Map::<int, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_write(&mut self, i: usize, x: T) requires i < N, !old(self)@.dom().contains(i as int), ensures final(self)@ == old(self)@.insert(i as int, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_drop_at(&mut self, i: usize) requires i < N, old(self)@.dom().contains(i as int), ensures final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_read(&mut self) -> (r: [T; N]) requires forall|i: int| 0 <= i < N ==> old(self)@.dom().contains(i), ensures final(self)@ == Map::<int, T>::empty(), forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == old(self)@[i] { unimplemented!() }
}
pub open spec fn array_ready<T, const N: usize>(s: ArraySink<T, N>) -> bool {
    s.buffer is Some && s.index <= N && (s.element is Some ==> s.index < N) && array_live(s)
}
/// What the buffer holds are exactly the first `index` elements: these are what there is to drop.
pub open spec fn array_live<T, const N: usize>(s: ArraySink<T, N>) -> bool {
    s.buffer is Some ==> s.index <= N && (forall|i: int| #[trigger] s.buffer->Some_0@.dom().contains(i) <==> 0 <= i < s.index)
}
pub uninterp spec fn has_drop<T>() -> bool;
#[verifier::external_body]
pub fn vf_needs_drop<T>() -> (r: bool) ensures r == has_drop::<T>() { unimplemented!() }
