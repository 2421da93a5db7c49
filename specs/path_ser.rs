// ---- what deser-path's serialization side calls ------------------------------------
/// dyn Serialize, as handles refer to it
#[verifier::external_body]
pub struct DynSer { _p: () }
pub uninterp spec fn asked(x: DynSer, r: Result<Chunk<'_>, Error>) -> bool;
pub uninterp spec fn ended(x: DynSer, r: Result<(), Error>) -> bool;
pub uninterp spec fn optional(x: DynSer) -> bool;
pub uninterp spec fn desc_of(x: DynSer) -> &'static dyn Descriptor;
/// Values leave the tracked path and other wrappers' cells alone.
pub open spec fn quiet(a: St, b: St) -> bool { a.path == b.path && a.log == b.log && kept(a.cells, b.cells) }
pub open spec fn call_ser(x: DynSer, a: St, r: Result<Chunk<'_>, Error>, b: St) -> bool {
    asked(x, r) && b.path == a.path && b.log == a.log.push((x, a.path)) && kept(a.cells, b.cells)
}
pub open spec fn call_fin(x: DynSer, a: St, r: Result<(), Error>, b: St) -> bool { ended(x, r) && quiet(a, b) }
#[verifier::external_body]
pub struct SerializeHandle<'a> { _p: std::marker::PhantomData<&'a ()> }
pub uninterp spec fn ser_of(h: SerializeHandle<'_>) -> DynSer;
/// h owns the value s.
pub uninterp spec fn owned<S>(h: SerializeHandle<'_>) -> S;
pub open spec fn refers<S>(h: SerializeHandle<'_>, s: S) -> bool { owned::<S>(h) == s }
impl<'a> SerializeHandle<'a> {
    #[verifier::external_body]
    pub fn vf_borrowed(x: &'a DynSer) -> (r: SerializeHandle<'a>) ensures ser_of(r) == *x { unimplemented!() }
    #[verifier::external_body]
    pub fn boxed<S: 'a>(val: S) -> (r: SerializeHandle<'a>) ensures refers(r, val) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(&self, state: &mut SerializerState, vf: &mut VfCells) -> (r: Result<Chunk<'_>, Error>)
        ensures call_ser(ser_of(*self), st(*old(state), *old(vf)), r, st(*final(state), *final(vf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self, state: &mut SerializerState, vf: &mut VfCells) -> (r: Result<(), Error>)
        ensures call_fin(ser_of(*self), st(*old(state), *old(vf)), r, st(*final(state), *final(vf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_optional(&self) -> (r: bool) ensures r == optional(ser_of(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn descriptor(&self) -> (r: &dyn Descriptor) ensures r == desc_of(ser_of(*self)) { unimplemented!() }
}
/// Box<dyn SeqEmitter>, Box<dyn MapEmitter>, Box<dyn StructEmitter>
#[verifier::external_body]
pub struct SeqEm<'a> { _p: std::marker::PhantomData<&'a ()> }
#[verifier::external_body]
pub struct MapEm<'a> { _p: std::marker::PhantomData<&'a ()> }
#[verifier::external_body]
pub struct StructEm<'a> { _p: std::marker::PhantomData<&'a ()> }
/// The boxed emitter b is e.
pub uninterp spec fn held<B, E>(b: B) -> E;
pub open spec fn holds<B, E>(b: B, e: E) -> bool { held::<B, E>(b) == e }
pub uninterp spec fn seq_gave(pre: SeqEm<'_>, r: Result<Option<SerializeHandle<'_>>, Error>, post: SeqEm<'_>) -> bool;
pub uninterp spec fn key_gave(pre: MapEm<'_>, r: Result<Option<SerializeHandle<'_>>, Error>, post: MapEm<'_>) -> bool;
pub uninterp spec fn value_gave(pre: MapEm<'_>, r: Result<SerializeHandle<'_>, Error>, post: MapEm<'_>) -> bool;
pub uninterp spec fn struct_gave(pre: StructEm<'_>, r: Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error>, post: StructEm<'_>) -> bool;
impl<'a> SeqEm<'a> {
    #[verifier::external_body]
    pub fn vf_new<E: 'a>(e: E) -> (r: SeqEm<'a>) ensures holds(r, e) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, state: &mut SerializerState, vf: &mut VfCells) -> (r: Result<Option<SerializeHandle<'_>>, Error>)
        ensures seq_gave(*old(self), r, *final(self)), quiet(st(*old(state), *old(vf)), st(*final(state), *final(vf))) { unimplemented!() }
}
impl<'a> MapEm<'a> {
    #[verifier::external_body]
    pub fn vf_new<E: 'a>(e: E) -> (r: MapEm<'a>) ensures holds(r, e) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_key(&mut self, state: &mut SerializerState, vf: &mut VfCells) -> (r: Result<Option<SerializeHandle<'_>>, Error>)
        ensures key_gave(*old(self), r, *final(self)), quiet(st(*old(state), *old(vf)), st(*final(state), *final(vf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_value(&mut self, state: &mut SerializerState, vf: &mut VfCells) -> (r: Result<SerializeHandle<'_>, Error>)
        ensures value_gave(*old(self), r, *final(self)), quiet(st(*old(state), *old(vf)), st(*final(state), *final(vf))) { unimplemented!() }
}
impl<'a> StructEm<'a> {
    #[verifier::external_body]
    pub fn vf_new<E: 'a>(e: E) -> (r: StructEm<'a>) ensures holds(r, e) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, state: &mut SerializerState, vf: &mut VfCells) -> (r: Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error>)
        ensures struct_gave(*old(self), r, *final(self)), quiet(st(*old(state), *old(vf)), st(*final(state), *final(vf))) { unimplemented!() }
}

// ---- what the wrappers do, step by step -------------------------------------------------
/// Atoms pass unchanged, containers get an emitter that tracks the path.
pub open spec fn tracked(c: Chunk<'_>, a: St, o: Chunk<'_>, b: St) -> bool {
    match c {
        Chunk::Atom(x) => o is Atom && atom_ev(o->Atom_0) == atom_ev(x),
        Chunk::Seq(em) => o is Seq && seq_tracked(em, o->Seq_0),
        Chunk::Struct(em) => o is Struct && struct_tracked(em, o->Struct_0),
        Chunk::Map(em) => o is Map && map_tracked(em, a, o->Map_0, b),
    }
}
pub open spec fn seq_tracked(em: SeqEm<'_>, o: SeqEm<'_>) -> bool { exists|e: PathSeqEmitter<'_>| #[trigger] holds(o, e) && e.emitter == em && e.index == 0 }
pub open spec fn struct_tracked(em: StructEm<'_>, o: StructEm<'_>) -> bool { exists|e: PathStructEmitter<'_>| #[trigger] holds(o, e) && e.emitter == em }
pub open spec fn map_tracked(em: MapEm<'_>, a: St, o: MapEm<'_>, b: St) -> bool {
    exists|e: PathMapEmitter<'_>| #[trigger] holds(o, e) && e.emitter == em
        && !a.cells.contains_key(e.path_segment.id()) && b.cells.contains_key(e.path_segment.id()) && b.cells[e.path_segment.id()] is None
}
pub open spec fn ser_tracked(x: DynSer, a: St, r: Result<Chunk<'_>, Error>, b: St) -> bool {
    exists|r0: Result<Chunk<'_>, Error>, a0: St, b0: St| #[trigger] call_ser(x, a0, r0, b0) && a0.path =~= a.path && a0.log =~= a.log && kept(a.cells, a0.cells) && quiet(b0, b)
        && match r0 { Err(_) => r is Err, Ok(c) => r is Ok && tracked(c, a, r->Ok_0, b) }
}
/// s holds a new cell containing g.
pub open spec fn fresh(a: St, c: VfCell, g: Seg, b: St) -> bool { !a.cells.contains_key(c.id()) && b.cells.contains_key(c.id()) && b.cells[c.id()] == Some(g) }
pub open spec fn pushing(r: SerializeHandle<'_>, h: SerializeHandle<'_>, g: Seg, a: St, b: St) -> bool {
    exists|x: SegmentPushingSerializable<'_>| #[trigger] refers(r, x) && ser_of(x.serializable) == ser_of(h) && fresh(a, x.segment, g, b)
}
pub open spec fn pushed(x: SegmentPushingSerializable<'_>, a: St) -> St { St { path: a.path.push(a.cells[x.segment.id()]->Some_0), cells: a.cells.insert(x.segment.id(), None), log: a.log } }
pub open spec fn push_ser(x: SegmentPushingSerializable<'_>, a: St, r: Result<Chunk<'_>, Error>, b: St) -> bool { ser_tracked(ser_of(x.serializable), pushed(x, a), r, b) }
pub open spec fn push_fin(x: SegmentPushingSerializable<'_>, a: St, r: Result<(), Error>, b: St) -> bool {
    ended(ser_of(x.serializable), r) && a.log == b.log && kept(a.cells, b.cells) && (r is Ok && a.path.len() > 0 ==> b.path =~= a.path.drop_last())
}
pub open spec fn key_seg(c: Chunk<'_>) -> Option<Seg> {
    match c { Chunk::Atom(Atom::Str(s)) => Some(Seg::Key(cow_str(s))), Chunk::Atom(Atom::U64(v)) => Some(Seg::Index(v as int)), _ => None }
}
/// The chunk unchanged; a string or number is remembered.
pub open spec fn coll_ser(x: SegmentCollectingSerializable<'_>, a: St, r: Result<Chunk<'_>, Error>, b: St) -> bool {
    exists|r0: Result<Chunk<'_>, Error>, b0: St| #[trigger] call_ser(ser_of(x.serializable), a, r0, b0) && match r0 {
        Err(_) => r is Err,
        Ok(c) => r is Ok && same_chunk(c, r->Ok_0) && b.path == b0.path && b.log == b0.log && b.cells =~= (match key_seg(c) { Some(g) => b0.cells.insert(x.segment.id(), Some(g)), None => b0.cells }),
    }
}
pub open spec fn same_chunk(a: Chunk<'_>, b: Chunk<'_>) -> bool { if a is Atom { b is Atom && atom_ev(a->Atom_0) == atom_ev(b->Atom_0) } else { a == b } }
pub open spec fn pseq_next(e: PathSeqEmitter<'_>, a: St, r: Result<Option<SerializeHandle<'_>>, Error>, f: PathSeqEmitter<'_>, b: St) -> bool {
    quiet(a, b) && exists|r0: Result<Option<SerializeHandle<'_>>, Error>| #[trigger] seq_gave(e.emitter, r0, f.emitter) && match r0 {
        Err(_) => r is Err,
        Ok(None) => r is Ok && r->Ok_0 is None,
        Ok(Some(h)) => r is Ok && r->Ok_0 is Some && pushing(r->Ok_0->Some_0, h, Seg::Index(e.index as int), a, b) && f.index == e.index + 1,
    }
}
pub open spec fn pstruct_next(e: PathStructEmitter<'_>, a: St, r: Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error>, f: PathStructEmitter<'_>, b: St) -> bool {
    quiet(a, b) && exists|r0: Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error>| #[trigger] struct_gave(e.emitter, r0, f.emitter) && match r0 {
        Err(_) => r is Err,
        Ok(None) => r is Ok && r->Ok_0 is None,
        Ok(Some((k, h))) => r is Ok && r->Ok_0 is Some && cow_str(r->Ok_0->Some_0.0) == cow_str(k) && pushing(r->Ok_0->Some_0.1, h, Seg::Key(cow_str(k)), a, b),
    }
}
pub open spec fn pmap_key(e: PathMapEmitter<'_>, a: St, r: Result<Option<SerializeHandle<'_>>, Error>, f: PathMapEmitter<'_>, b: St) -> bool {
    quiet(a, b) && f.path_segment.id() == e.path_segment.id() && exists|r0: Result<Option<SerializeHandle<'_>>, Error>| #[trigger] key_gave(e.emitter, r0, f.emitter) && match r0 {
        Err(_) => r is Err,
        Ok(None) => r is Ok && r->Ok_0 is None,
        Ok(Some(h)) => r is Ok && r->Ok_0 is Some && collecting(r->Ok_0->Some_0, h, e.path_segment),
    }
}
pub open spec fn collecting(r: SerializeHandle<'_>, h: SerializeHandle<'_>, c: VfCell) -> bool {
    exists|x: SegmentCollectingSerializable<'_>| #[trigger] refers(r, x) && ser_of(x.serializable) == ser_of(h) && x.segment.id() == c.id()
}
/// The value is placed at the remembered key, which is forgotten.
pub open spec fn pmap_value(e: PathMapEmitter<'_>, a: St, r: Result<SerializeHandle<'_>, Error>, f: PathMapEmitter<'_>, b: St) -> bool {
    let c = e.path_segment.id();
    a.path == b.path && a.log == b.log && kept_but(a.cells, c, b.cells) && b.cells.contains_key(c) && b.cells[c] is None && f.path_segment.id() == c
    && exists|r0: Result<SerializeHandle<'_>, Error>| #[trigger] value_gave(e.emitter, r0, f.emitter) && match r0 {
        Err(_) => r is Err,
        Ok(h) => r is Ok && pushing(r->Ok_0, h, match a.cells[c] { Some(g) => g, None => Seg::Unknown }, St { cells: a.cells.insert(c, None), ..a }, b),
    }
}
