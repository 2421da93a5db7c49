// ---- what a descriptor says ---------------------------------------------------------
pub ghost struct Dsc { pub name: Option<Seq<char>>, pub precision: Option<usize>, pub unordered: bool }
pub open spec fn nothing() -> Dsc { Dsc { name: None, precision: None, unordered: false } }
pub open spec fn number(d: Dsc, name: Seq<char>, bits: usize) -> bool { d == (Dsc { name: Some(name), precision: Some(bits), unordered: false }) }
pub open spec fn plain(d: Dsc) -> bool { d.name is Some && d.precision is None && !d.unordered }
pub open spec fn shuffled(d: Dsc) -> bool { d.name is Some && d.precision is None && d.unordered }
/// R-static: a static holds its initializer.
#[verifier::external_body]
pub fn vf_static<T>(x: T) -> (r: &'static T) ensures *r == x { unimplemented!() }
/// The sink another sink hands its calls on to.
#[verifier::external_body]
pub struct VfInner { _p: () }
impl VfInner {
    pub uninterp spec fn dsc(&self) -> Dsc;
    #[verifier::external_body]
    pub fn descriptor(&self) -> (r: &dyn Descriptor) ensures r.dsc() == self.dsc() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: &VfInner) ensures *r == *self { unimplemented!() }
}
