// ---- handles: which object a call on a handle reaches ------------------------------
// dyn Sink / dyn Serialize are opaque; turning a value into one is vf_dyn_*.
pub trait Descriptor {}
#[verifier::external_body]
pub struct Extensions { _p: () }
pub trait Sink {}
pub trait Serialize {}
#[verifier::external_body]
pub struct DynSink { _p: () }
#[verifier::external_body]
pub struct DynSer { _p: () }
pub uninterp spec fn dyn_sink<S>(s: S) -> DynSink;
pub uninterp spec fn dyn_ser<S>(s: S) -> DynSer;
#[verifier::external_body]
pub fn vf_dyn_ignore<'x>(i: &'x Ignore) -> (r: &'x DynSink) ensures *r == dyn_sink(*i) { unimplemented!() }
#[verifier::external_body]
pub fn vf_dyn_ignore_mut<'x>(i: &'x mut Ignore) -> (r: &'x mut DynSink) ensures *r == dyn_sink(*old(i)) { unimplemented!() }
#[verifier::external_body]
pub fn vf_dyn_sink_box<S: Sink>(s: S) -> (r: Box<DynSink>) ensures *r == dyn_sink(s) { unimplemented!() }
#[verifier::external_body]
pub fn vf_dyn_ser<'x, S: Serialize>(s: &'x S) -> (r: &'x DynSer) ensures *r == dyn_ser(*s) { unimplemented!() }
#[verifier::external_body]
pub fn vf_dyn_ser_box<S: Serialize>(s: S) -> (r: Box<DynSer>) ensures *r == dyn_ser(s) { unimplemented!() }
/// The sink / the value a handle stands for.
pub open spec fn behind(h: SinkHandle<'_>) -> DynSink { match h { SinkHandle::Borrowed(v) => *v, SinkHandle::Owned(b) => *b, SinkHandle::Null(i) => dyn_sink(i) } }
pub open spec fn told(h: SerializeHandle<'_>) -> DynSer { match h { SerializeHandle::Borrowed(v) => *v, SerializeHandle::Owned(b) => *b } }

pub trait Deserialize: Sized {
    #[verifier::prophetic] spec fn feeds(h: SinkHandle<'_>, init: Option<Self>, fin: Option<Self>) -> bool;
    fn deserialize_into(out: &mut Option<Self>) -> (r: SinkHandle<'_>) ensures Self::feeds(r, *old(out), *final(out));
}
// transmutes: lifetimes only. The alias of the slot and the box that holds the slot are one
// place: what the box holds afterwards is what the alias leaves there.
#[verifier::external_body]
pub fn vf_alias<'x, 'y, T>(x: &'x mut T) -> (r: &'y mut T) where T: 'y ensures *r == *old(x), *final(x) == *final(r) { unimplemented!() }
#[verifier::external_body]
pub fn vf_extend<'x, 'y>(h: SinkHandle<'x>) -> (r: SinkHandle<'y>) ensures r == h { unimplemented!() }
#[verifier::external_body]
pub fn vf_extend_ref<'x, 'y, 'z>(h: &'z SinkHandle<'x>) -> (r: &'z SinkHandle<'y>) ensures *r == *h { unimplemented!() }
#[verifier::external_body]
pub fn vf_extend_mut<'x, 'y, 'z>(h: &'z mut SinkHandle<'x>) -> (r: &'z mut SinkHandle<'y>) ensures *r == *old(h), *final(h) == *final(r) { unimplemented!() }
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r is Some == o is Some, o matches Some(x) ==> r == Some(*x);

// ---- what an owned sink drops (C34) ------------------------------------------------
pub ghost enum Held { Sink, Slot }
impl<'a> VfHeld for SinkHandle<'a> { open spec fn held(&self) -> Seq<Held> { seq![Held::Sink] } }
impl<T> VfHeld for Box<T> { open spec fn held(&self) -> Seq<Held> { seq![Held::Slot] } }
