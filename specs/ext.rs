// What stands for the parts of std this code is written with.
/// std::any::TypeId, compared by value; distinct types have distinct ids.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TypeId { pub t: u128 }
pub uninterp spec fn type_id<T>() -> TypeId;
pub uninterp spec fn type_of(t: TypeId) -> Seq<char>;
impl TypeId {
    #[verifier::external_body]
    pub fn of<T>() -> (r: TypeId) ensures r == type_id::<T>() { unimplemented!() }
}
#[verifier::external_body]
pub fn type_name<T>() -> (r: &'static str) ensures r@ == type_of(type_id::<T>()) { unimplemented!() }

/// What a Hasher was fed.
pub enum Fed { Id(TypeId), Name(Seq<char>) }
pub trait Hasher: Sized { spec fn fed(&self) -> Seq<Fed>; }
impl TypeId {
    #[verifier::external_body]
    pub fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed().push(Fed::Id(*self)) { unimplemented!() }
}
pub trait HashStr { spec fn text(&self) -> Seq<char>; fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed().push(Fed::Name(self.text())); }
impl HashStr for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}

/// A Box<dyn DebugAny>: a value of some type.  downcast_ref and downcast_mut are Any's.
#[verifier::external_body]
pub struct VfBox { _p: () }
impl VfBox {
    pub uninterp spec fn tid(&self) -> TypeId;
    pub uninterp spec fn val<T>(&self) -> T;
    #[verifier::external_body]
    pub fn new<T>(x: T) -> (r: VfBox) ensures r.tid() == type_id::<T>(), r.val::<T>() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn downcast_ref<T>(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self.tid() == type_id::<T>() && *x == self.val::<T>(), None => self.tid() != type_id::<T>() } { unimplemented!() }
    #[verifier::external_body]
    pub fn downcast_mut<T>(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => old(self).tid() == type_id::<T>() && *x == old(self).val::<T>() && final(self).tid() == old(self).tid() && final(self).val::<T>() == *final(x),
            None => old(self).tid() != type_id::<T>() && *final(self) == *old(self),
        } { unimplemented!() }
}

/// A key made by TypeKey::of.
pub open spec fn of_type(k: TypeKey) -> bool { k.1@ == type_of(k.0) }
/// std's HashMap<TypeKey, Box<dyn DebugAny>>.  That keys are told apart by their TypeId is
/// what TypeKey's eq and hash are proved to establish.
#[verifier::external_body]
pub struct VfMap { _p: () }
impl VfMap {
    pub uninterp spec fn at(&self) -> Map<TypeId, VfBox>;
    #[verifier::external_body]
    pub fn empty() -> (r: VfMap) ensures r.at() == Map::<TypeId, VfBox>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: TypeKey, v: VfBox) -> (r: Option<VfBox>) requires of_type(k) ensures final(self).at() == old(self).at().insert(k.0, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &TypeKey) -> (r: Option<VfBox>) requires of_type(*k) ensures final(self).at() == old(self).at().remove(k.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).at() == Map::<TypeId, VfBox>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &TypeKey) -> (r: bool) requires of_type(*k) ensures r == self.at().contains_key(k.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &TypeKey) -> (r: Option<&VfBox>) requires of_type(*k)
        ensures match r { Some(b) => self.at().contains_key(k.0) && *b == self.at()[k.0], None => !self.at().contains_key(k.0) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &TypeKey) -> (r: Option<&mut VfBox>) requires of_type(*k)
        ensures match r {
            Some(b) => old(self).at().contains_key(k.0) && *b == old(self).at()[k.0] && final(self).at() == old(self).at().insert(k.0, *final(b)),
            None => !old(self).at().contains_key(k.0) && final(self).at() == old(self).at(),
        } { unimplemented!() }
}
pub trait Descriptor {}

// ---- what the state is -----------------------------------------------------------
pub type St = Map<TypeId, VfBox>;
/// Every value sits under the id of its type.
pub open spec fn sound(s: St) -> bool { forall|i: TypeId| #[trigger] s.contains_key(i) ==> s[i].tid() == i }
/// The value kept for T becomes v; nothing else changes.
pub open spec fn put<T>(a: St, v: T, b: St) -> bool {
    &&& b.contains_key(type_id::<T>()) && b[type_id::<T>()].tid() == type_id::<T>() && b[type_id::<T>()].val::<T>() == v
    &&& b =~= a.insert(type_id::<T>(), b[type_id::<T>()])
}
/// The first access of a type puts its default there.
pub open spec fn ensured<T: Default>(a: St, b: St) -> bool {
    if a.contains_key(type_id::<T>()) { b == a } else { exists|d: T| call_ensures(T::default, (), d) && #[trigger] put(a, d, b) }
}
/// get: what was there, or the default.
pub open spec fn got<T: Default>(a: St, v: T, b: St) -> bool { ensured::<T>(a, b) && v == b[type_id::<T>()].val::<T>() }
/// get_mut: the same, and what the caller makes of it stays.
pub open spec fn got_mut<T: Default>(a: St, v: T, w: T, b: St) -> bool {
    &&& put(a, w, b)
    &&& if a.contains_key(type_id::<T>()) { v == a[type_id::<T>()].val::<T>() } else { call_ensures(T::default, (), v) }
}

// ---- histories -------------------------------------------------------------------
/// One access of the type with id `i`, whatever it is.
pub open spec fn access(a: St, i: TypeId, b: St) -> bool {
    sound(b) && b.contains_key(i) && b == a.insert(i, b[i])
}
pub open spec fn history(ss: Seq<St>, is: Seq<TypeId>) -> bool {
    ss.len() == is.len() + 1 && forall|k: int| #![trigger is[k]] 0 <= k < is.len() ==> access(ss[k], is[k], ss[k + 1])
}
pub proof fn lemma_got_is_access<T: Default>(a: St, v: T, b: St)
    requires sound(a), got(a, v, b),
    ensures access(a, type_id::<T>(), b),
{ if a.contains_key(type_id::<T>()) { assert(a =~= a.insert(type_id::<T>(), a[type_id::<T>()])); } }
pub proof fn lemma_got_mut_is_access<T: Default>(a: St, v: T, w: T, b: St)
    requires sound(a), got_mut(a, v, w, b),
    ensures access(a, type_id::<T>(), b),
{
    let i = type_id::<T>();
    assert(a.insert(i, b[i]) =~= b);
}
/// Accesses of other types, however many, leave what is kept for a type alone.
pub proof fn lemma_others(ss: Seq<St>, is: Seq<TypeId>, id: TypeId)
    requires history(ss, is), forall|k: int| 0 <= k < is.len() ==> #[trigger] is[k] != id,
    ensures ss.last().contains_key(id) == ss[0].contains_key(id), ss[0].contains_key(id) ==> ss.last()[id] == ss[0][id],
    decreases is.len(),
{
    if is.len() > 0 {
        let n = is.len() - 1;
        let ss2 = ss.drop_last();
        let is2 = is.drop_last();
        assert forall|k: int| 0 <= k < is2.len() implies access(ss2[k], #[trigger] is2[k], ss2[k + 1]) by { assert(is[k] == is2[k]); }
        assert forall|k: int| 0 <= k < is2.len() implies #[trigger] is2[k] != id by { assert(is[k] == is2[k]); }
        lemma_others(ss2, is2, id);
        assert(access(ss[n], is[n], ss[n + 1]));
    }
}
/// What one access of a type left is what the next access of that type sees, whatever was
/// accessed in between.
pub proof fn lemma_kept<T: Default>(a: St, v: T, w: T, ss: Seq<St>, is: Seq<TypeId>, x: T, b: St)
    requires
        sound(a), got_mut(a, v, w, ss[0]), history(ss, is), forall|k: int| 0 <= k < is.len() ==> #[trigger] is[k] != type_id::<T>(),
        got(ss.last(), x, b),
    ensures x == w,
{ lemma_others(ss, is, type_id::<T>()); }
/// The first access of a type in a run sees its default, whatever was accessed before.
pub proof fn lemma_first<T: Default>(ss: Seq<St>, is: Seq<TypeId>, x: T, b: St)
    requires
        ss[0] == Map::<TypeId, VfBox>::empty(), history(ss, is), forall|k: int| 0 <= k < is.len() ==> #[trigger] is[k] != type_id::<T>(),
        got(ss.last(), x, b),
    ensures call_ensures(T::default, (), x),
{ lemma_others(ss, is, type_id::<T>()); }
