// The state is passed exclusively (R-state) and holds the tracked path; RefCells are
// names of cells in `vf` (R-cell), which also keeps a ghost log of the calls observed
// and the path at that moment.
pub trait Descriptor {}
pub struct STATE { pub path: Path }
impl STATE {
    pub fn vf_path(&mut self) -> (r: &mut Path) ensures *r == old(self).path, final(self).path == *final(r) { &mut self.path }
    pub fn vf_path_ref(&self) -> (r: &Path) ensures *r == self.path { &self.path }
}
#[verifier::external_body]
pub struct VfCells { _p: () }
impl VfCells {
    pub uninterp spec fn at(&self) -> Map<int, Option<Seg>>;
    pub uninterp spec fn log(&self) -> Seq<LOG>;
}
#[verifier::external_body]
pub struct VfCell { _p: () }
impl VfCell { pub uninterp spec fn id(self) -> int; }
impl Clone for VfCell {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
}
/// Cells are never taken away; kept: nor changed.
pub open spec fn kept(a: Map<int, Option<Seg>>, b: Map<int, Option<Seg>>) -> bool {
    forall|k: int| #![trigger a.contains_key(k)] #![trigger b.contains_key(k)] #![trigger a[k]] #![trigger b[k]] a.contains_key(k) ==> b.contains_key(k) && a[k] == b[k]
}
pub open spec fn kept_but(a: Map<int, Option<Seg>>, c: int, b: Map<int, Option<Seg>>) -> bool {
    forall|k: int| #![trigger a.contains_key(k)] #![trigger b.contains_key(k)] #![trigger a[k]] #![trigger b[k]] a.contains_key(k) && k != c ==> b.contains_key(k) && a[k] == b[k]
}
pub open spec fn oseg(o: Option<PathSegment>) -> Option<Seg> { match o { Some(p) => Some(seg(p)), None => None } }
/// RefCell::new / Rc::default
#[verifier::external_body]
pub fn vf_cell(vf: &mut VfCells, x: Option<PathSegment>) -> (r: VfCell)
    ensures !old(vf).at().contains_key(r.id()), final(vf).at() == old(vf).at().insert(r.id(), oseg(x)), final(vf).log() == old(vf).log() { unimplemented!() }
/// cell.take(), cell.borrow_mut().take()
#[verifier::external_body]
pub fn vf_take(c: &VfCell, vf: &mut VfCells) -> (r: Option<PathSegment>)
    ensures oseg(r) == old(vf).at()[c.id()], final(vf).at() == old(vf).at().insert(c.id(), None), final(vf).log() == old(vf).log() { unimplemented!() }
/// cell.borrow_mut(), cell.borrow()
#[verifier::external_body]
pub fn vf_borrow_mut<'c>(c: &VfCell, vf: &'c mut VfCells) -> (r: &'c mut Option<PathSegment>)
    ensures oseg(*r) == old(vf).at()[c.id()], final(vf).at() == old(vf).at().insert(c.id(), oseg(*final(r))), final(vf).log() == old(vf).log() { unimplemented!() }
#[verifier::external_body]
pub fn vf_borrow<'c>(c: &VfCell, vf: &'c VfCells) -> (r: &'c Option<PathSegment>)
    ensures oseg(*r) == vf.at()[c.id()] { unimplemented!() }
/// *cell.borrow_mut() = x
#[verifier::external_body]
pub fn vf_put(c: &VfCell, vf: &mut VfCells, x: Option<PathSegment>)
    ensures final(vf).at() == old(vf).at().insert(c.id(), oseg(x)), final(vf).log() == old(vf).log() { unimplemented!() }

pub ghost enum Seg { Unknown, Index(int), Key(Seq<char>) }
pub open spec fn seg(p: PathSegment) -> Seg {
    match p { PathSegment::Unknown => Seg::Unknown, PathSegment::Index(i) => Seg::Index(i as int), PathSegment::Key(s) => Seg::Key(s@) }
}
pub open spec fn segs(v: Seq<PathSegment>) -> Seq<Seg> { v.map_values(|p: PathSegment| seg(p)) }
pub ghost struct St { pub path: Seq<Seg>, pub cells: Map<int, Option<Seg>>, pub log: Seq<LOG> }
pub open spec fn st(s: STATE, c: VfCells) -> St { St { path: segs(s.path.segments@), cells: c.at(), log: c.log() } }

