/// Box<dyn SeqEmitter>, Box<dyn MapEmitter>: left(e) more items follow, item(e, i, h)
/// says that h is right for the i-th of them.
#[verifier::prophetic] pub uninterp spec fn seq_left(e: SeqEm<'_>) -> nat;
#[verifier::prophetic] pub uninterp spec fn seq_item(e: SeqEm<'_>, i: int, h: SerializeHandle<'_>) -> bool;
#[verifier::prophetic] pub uninterp spec fn map_left(e: MapEm<'_>) -> nat;
#[verifier::prophetic] pub uninterp spec fn map_key(e: MapEm<'_>, i: int, h: SerializeHandle<'_>) -> bool;
#[verifier::prophetic] pub uninterp spec fn map_value(e: MapEm<'_>, i: int, h: SerializeHandle<'_>) -> bool;
impl<'a> SeqEm<'a> {
    pub fn vf_new<E: SeqEmitter + 'a>(e: E) -> (r: SeqEm<'a>) requires e.more(), ensures e.tells(r),
        seq_left(r) == e.left(), forall|i: int, h: SerializeHandle<'_>| #[trigger] seq_item(r, i, h) == e.item(i, h) {
        let ghost g = e;
        let r = Self::vf_box(e);
        proof { g.tells_ok(r); }
        r
    }
    #[verifier::external_body]
    pub fn vf_box<E: SeqEmitter + 'a>(e: E) -> (r: SeqEm<'a>) requires e.more(),
        ensures seq_left(r) == e.left(), forall|i: int, h: SerializeHandle<'_>| #[trigger] seq_item(r, i, h) == e.item(i, h) { unimplemented!() }
}
impl<'a> MapEm<'a> {
    pub fn vf_new<E: MapEmitter + 'a>(e: E) -> (r: MapEm<'a>) requires e.more(), ensures e.tells(r) {
        let ghost g = e;
        let r = Self::vf_box(e);
        proof { g.tells_ok(r); }
        r
    }
    #[verifier::external_body]
    pub fn vf_box<E: MapEmitter + 'a>(e: E) -> (r: MapEm<'a>) requires e.more(),
        ensures map_left(r) == e.left(), forall|i: int, h: SerializeHandle<'_>| #[trigger] map_key(r, i, h) == e.key(i, h),
            forall|i: int, h: SerializeHandle<'_>| #[trigger] map_value(r, i, h) == e.value(i, h) { unimplemented!() }
}
/// A byte string, or a sequence of exactly these values in this order.
#[verifier::prophetic]
pub open spec fn slice_said<T: Serialize>(r: Result<Chunk<'_>, Error>, v: Seq<T>) -> bool {
    match T::byte_form(v) {
        Some(b) => atom_said(r, Ev::Bytes(b)),
        None => r is Ok && r->Ok_0 is Seq && seq_of(r->Ok_0->Seq_0, v),
    }
}
#[verifier::prophetic]
pub open spec fn seq_of<T>(e: SeqEm<'_>, v: Seq<T>) -> bool {
    seq_left(e) == v.len() && forall|i: int, h: SerializeHandle<'_>| #[trigger] seq_item(e, i, h) && 0 <= i < v.len() ==> refers(h, v[i])
}
#[verifier::prophetic]
pub open spec fn set_said<T>(r: Result<Chunk<'_>, Error>, s: Set<T>) -> bool {
    r is Ok && r->Ok_0 is Seq && seq_of_set(r->Ok_0->Seq_0, s)
}
#[verifier::prophetic]
pub open spec fn seq_of_set<T>(e: SeqEm<'_>, s: Set<T>) -> bool { exists|v: Seq<T>| v.no_duplicates() && v.to_set() == s && #[trigger] seq_of(e, v) }
#[verifier::prophetic]
pub open spec fn map_of<K, V>(e: MapEm<'_>, v: Seq<(K, V)>) -> bool {
    map_left(e) == v.len()
    && (forall|i: int, h: SerializeHandle<'_>| #[trigger] map_key(e, i, h) && 0 <= i < v.len() ==> refers(h, v[i].0))
    && (forall|i: int, h: SerializeHandle<'_>| #[trigger] map_value(e, i, h) && 0 <= i < v.len() ==> refers(h, v[i].1))
}
#[verifier::prophetic]
pub open spec fn map_said<K, V>(r: Result<Chunk<'_>, Error>, m: Map<K, V>) -> bool {
    r is Ok && r->Ok_0 is Map && map_of_map(r->Ok_0->Map_0, m)
}
#[verifier::prophetic]
pub open spec fn map_of_map<K, V>(e: MapEm<'_>, m: Map<K, V>) -> bool { exists|v: Seq<(K, V)>| v.no_duplicates() && v.to_set() == m.kv_pairs() && #[trigger] map_of(e, v) }
pub uninterp spec fn f64_of_f32(x: f32) -> f64;
#[verifier::external_body] pub fn vf_f64_f32(x: f32) -> (r: f64) ensures r == f64_of_f32(x) { x as f64 }
#[verifier::external_body] pub fn vf_f64_f64(x: f64) -> (r: f64) ensures r == x { x }

