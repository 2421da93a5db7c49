// ---- the deserialization driver as a transition system --------------------------
// Handles name sinks; did / gave relate a sink before and after one call, made while
// the containers with the descriptors st were open (what depth and top_descriptor tell).
pub type Open = Seq<&'static dyn Descriptor>;
pub uninterp spec fn did(st: Open, pre: SinkHandle<'_>, c: Call, r: Result<(), Error>, post: SinkHandle<'_>) -> bool;
pub uninterp spec fn gave(st: Open, pre: SinkHandle<'_>, c: Call, r: Result<SinkHandle<'_>, Error>, post: SinkHandle<'_>) -> bool;
pub ghost struct Dv {
    pub stack: Seq<(SinkHandle<'static>, Layer)>,
    pub cur: Option<SinkHandle<'static>>,
    pub descs: Seq<&'static dyn Descriptor>,
}
pub open spec fn top_key(d: Dv) -> bool { d.stack.last().1 is Map && d.stack.last().1->Map_0 }
/// The sink the structure designates for the next value is c: the root, or what
/// the innermost container's sink hands out for a key, a value or an element.
pub open spec fn opened(d: Dv, c: SinkHandle<'static>, d1: Dv) -> bool {
    if d.stack.len() == 0 {
        d1.stack =~= d.stack && d1.cur == d.cur && d1.descs == d.descs && d.cur == Some(c)
    } else {
        &&& d1.cur == Some(c) && d1.descs == d.descs && d1.stack.len() == d.stack.len() && d1.stack.drop_last() =~= d.stack.drop_last()
        &&& gave(d.descs, d.stack.last().0, if top_key(d) { Call::NextKey } else { Call::NextValue }, Ok(c), d1.stack.last().0)
        &&& match d.stack.last().1 { Layer::Map(k) => d1.stack.last().1 == Layer::Map(!k), Layer::Seq => d1.stack.last().1 == Layer::Seq }
    }
}
/// The innermost container's sink refused with e.
pub open spec fn refused(d: Dv, e: Error, d1: Dv) -> bool {
    &&& d.stack.len() > 0 && d1.descs == d.descs && d1.stack.len() == d.stack.len() && d1.stack.drop_last() =~= d.stack.drop_last()
    &&& gave(d.descs, d.stack.last().0, if top_key(d) { Call::NextKey } else { Call::NextValue }, Err(e), d1.stack.last().0)
    &&& d1.stack.last().1 == d.stack.last().1
}
/// One scalar: delivered to c and c finished at once.
pub open spec fn scalar(d1: Dv, c: SinkHandle<'static>, e: Ev, r: Result<(), Error>, d2: Dv) -> bool {
    &&& d2.stack == d1.stack && d2.descs == d1.descs && d2.cur is Some
    &&& exists|c1: SinkHandle<'static>, r1: Result<(), Error>| #[trigger] did(d1.descs, c, Call::Atom(e), r1, c1)
        && if r1 is Err { r == r1 && d2.cur == Some(c1) } else { did(d1.descs, c1, Call::Finish, r, d2.cur->Some_0) }
}
/// The start of a container: c is told and becomes the innermost container.
pub open spec fn started(d1: Dv, c: SinkHandle<'static>, l: Layer, r: Result<(), Error>, d2: Dv) -> bool {
    let call = if l is Map { Call::Map } else { Call::Seq };
    match r {
        Err(_) => d2.stack == d1.stack && d2.descs == d1.descs && d2.cur is Some && did(d1.descs, c, call, r, d2.cur->Some_0),
        Ok(_) => d2.cur is None && d2.stack.len() == d1.stack.len() + 1 && d2.stack.drop_last() =~= d1.stack && d2.stack.last().1 == l
            && did(d1.descs, c, call, r, d2.stack.last().0) && d2.descs =~= d1.descs.push(desc_of(d2.stack.last().0)),
    }
}
/// The end of the innermost container: its sink is finished, once.
pub open spec fn ended(d: Dv, r: Result<(), Error>, d2: Dv) -> bool {
    match r {
        Err(_) => (d2.stack =~= d.stack.drop_last() || d2.stack.len() == d.stack.len() && d2.stack.drop_last() =~= d.stack.drop_last())
            && exists|h: SinkHandle<'static>| #[trigger] did(d.descs, d.stack.last().0, Call::Finish, r, h),
        Ok(_) => d2.stack =~= d.stack.drop_last() && d2.cur is Some && did(d.descs, d.stack.last().0, Call::Finish, r, d2.cur->Some_0) && d2.descs =~= d.descs.drop_last(),
    }
}
pub open spec fn step(d: Dv, e: Ev, r: Result<(), Error>, d2: Dv) -> bool {
    match e {
        Ev::MapEnd | Ev::SeqEnd => ended(d, r, d2),
        Ev::MapStart | Ev::SeqStart => (r is Err && refused(d, r->Err_0, d2))
            || exists|c: SinkHandle<'static>, d1: Dv| #[trigger] opened(d, c, d1) && started(d1, c, if e == Ev::MapStart { Layer::Map(true) } else { Layer::Seq }, r, d2),
        _ => (r is Err && refused(d, r->Err_0, d2))
            || exists|c: SinkHandle<'static>, d1: Dv| #[trigger] opened(d, c, d1) && scalar(d1, c, e, r, d2),
    }
}
/// A container is open or the root sink waits; ends match the innermost container.
pub open spec fn dv_ok(d: Dv) -> bool { d.descs.len() == d.stack.len() && (d.stack.len() > 0 || d.cur is Some) }
pub open spec fn expected(d: Dv, e: Ev) -> bool {
    match e { Ev::MapEnd => d.stack.len() > 0 && d.stack.last().1 is Map, Ev::SeqEnd => d.stack.len() > 0 && d.stack.last().1 is Seq, _ => true }
}
impl<'a> DeserializeDriver<'a> {
    pub open spec fn dv(self) -> Dv { Dv { stack: self.sink_stack@, cur: self.current_sink, descs: self.state.descriptor_stack@ } }
}
// std::mem::transmute between types that differ in lifetimes only
#[verifier::external_body]
pub fn vf_extend<'x>(h: SinkHandle<'x>) -> (r: SinkHandle<'static>) ensures r == h { unimplemented!() }
#[verifier::external_body]
pub fn vf_extend_desc<'x>(d: &'x dyn Descriptor) -> (r: &'static dyn Descriptor) ensures r == d { unimplemented!() }
#[verifier::external_body]
pub struct Extensions { _p: () }
impl Default for Extensions { #[verifier::external_body] fn default() -> (r: Extensions) ensures r.fresh() { unimplemented!() } }
/// Nothing was accessed yet (Extensions::default, decided in unit ext).
impl Extensions { pub uninterp spec fn fresh(&self) -> bool; }
pub trait Sink {}

// ---- what the driver holds (C34) -------------------------------------------------
/// Every descriptor the state shows is that of a sink still held.
pub open spec fn owned(d: Dv) -> bool { d.descs.len() == d.stack.len() }
/// A container that failed was called with nothing it had given still held.
pub open spec fn let_go(r: Result<(), Error>, d: Dv) -> bool { r is Err ==> d.cur is None }
pub ghost enum Held { Sink(SinkHandle<'static>) }
impl<'a> VfHeld for SinkHandle<'a> { open spec fn held(&self) -> Seq<Held> { seq![Held::Sink(*self)] } }
impl VfHeld for Layer { open spec fn held(&self) -> Seq<Held> { seq![] } }
impl<'a> VfHeld for DeserializerState<'a> { open spec fn held(&self) -> Seq<Held> { seq![] } }
/// The current sink, then the containers from the innermost out.
pub open spec fn unwind(stack: Seq<(SinkHandle<'static>, Layer)>) -> Seq<Held>
    decreases stack.len()
{
    if stack.len() == 0 { seq![] } else { stack.last().held() + unwind(stack.drop_last()) }
}
pub open spec fn inside_out(d: Dv) -> Seq<Held> { d.cur.held() + unwind(d.stack) }
