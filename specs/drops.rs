// ---- R-drop: what is dropped, in order -------------------------------------------
pub trait VfHeld {
    spec fn held(&self) -> Seq<Held>;
}
impl<T: VfHeld> VfHeld for Option<T> { open spec fn held(&self) -> Seq<Held> { match *self { Some(x) => x.held(), None => seq![] } } }
impl<A: VfHeld, B: VfHeld> VfHeld for (A, B) { open spec fn held(&self) -> Seq<Held> { self.0.held() + self.1.held() } }
pub open spec fn held_all<T: VfHeld>(s: Seq<T>) -> Seq<Held>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { s[0].held() + held_all(s.drop_first()) }
}
/// A Vec drops its elements from the first to the last.
impl<T: VfHeld> VfHeld for Vec<T> { open spec fn held(&self) -> Seq<Held> { held_all(self@) } }
#[verifier::external_body]
pub struct VfLog { _p: () }
impl VfLog { pub uninterp spec fn log(&self) -> Seq<Held>; }
#[verifier::external_body]
pub fn vf_drop<T: VfHeld>(x: T, vf_log: &mut VfLog) ensures final(vf_log).log() == old(vf_log).log() + x.held() { unimplemented!() }
/// Drop glue of a place; what is left there is not to be looked at.
#[verifier::external_body]
pub fn vf_drop_rest<T: VfHeld>(x: &mut T, vf_log: &mut VfLog) ensures final(vf_log).log() == old(vf_log).log() + old(x).held() { unimplemented!() }
