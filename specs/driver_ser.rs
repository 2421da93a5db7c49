// ---- what the driver calls: values, handles and emitters are opaque, what they do
// is stated by uninterpreted relations between the object and the result ------------
pub trait Descriptor {}
#[verifier::external_body]
pub struct Extensions { _p: () }
impl Default for Extensions { #[verifier::external_body] fn default() -> (r: Extensions) ensures r.fresh() { unimplemented!() } }
/// Nothing was accessed yet (Extensions::default, decided in unit ext).
impl Extensions { pub uninterp spec fn fresh(&self) -> bool; }
/// dyn Serialize
#[verifier::external_body]
pub struct DynSer { _p: () }
/// x.serialize(..) returned r / x.finish(..) returned r / the descriptor of x; the calls are
/// made while the containers with the descriptors st are open (what depth and top_descriptor tell).
pub type Open = Seq<&'static dyn Descriptor>;
pub uninterp spec fn said(st: Open, x: DynSer, r: Result<Chunk<'_>, Error>) -> bool;
pub uninterp spec fn finished(st: Open, x: DynSer, r: Result<(), Error>) -> bool;
pub uninterp spec fn desc_ser(x: DynSer) -> &'static dyn Descriptor;
impl DynSer {
    #[verifier::external_body]
    pub fn serialize(&self, state: &SerializerState) -> (r: Result<Chunk<'_>, Error>) ensures said(state.descriptor_stack@, *self, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self, state: &SerializerState) -> (r: Result<(), Error>) ensures finished(state.descriptor_stack@, *self, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn descriptor(&self) -> (r: &dyn Descriptor) ensures r == desc_ser(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct SerializeHandle<'a> { _p: std::marker::PhantomData<&'a ()> }
pub uninterp spec fn ser_of(h: SerializeHandle<'_>) -> DynSer;
pub uninterp spec fn str_ser(s: Seq<char>) -> DynSer;
impl<'a> SerializeHandle<'a> {
    #[verifier::external_body]
    pub fn vf_borrowed(x: &'a DynSer) -> (r: SerializeHandle<'a>) ensures ser_of(r) == *x { unimplemented!() }
}
impl<'a> std::ops::Deref for SerializeHandle<'a> {
    type Target = DynSer;
    #[verifier::external_body]
    fn deref(&self) -> (r: &DynSer) ensures *r == ser_of(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_dyn_str<'x, 'y>(c: &'x Cow<'y, str>) -> (r: &'x DynSer) ensures *r == str_ser(cow_str(*c)) { unimplemented!() }
/// Box<dyn SeqEmitter>, Box<dyn MapEmitter>, Box<dyn StructEmitter>
#[verifier::external_body]
pub struct SeqEm<'a> { _p: std::marker::PhantomData<&'a ()> }
#[verifier::external_body]
pub struct MapEm<'a> { _p: std::marker::PhantomData<&'a ()> }
#[verifier::external_body]
pub struct StructEm<'a> { _p: std::marker::PhantomData<&'a ()> }
pub uninterp spec fn seq_gave(st: Open, pre: SeqEm<'_>, r: Result<Option<SerializeHandle<'_>>, Error>, post: SeqEm<'_>) -> bool;
pub uninterp spec fn key_gave(st: Open, pre: MapEm<'_>, r: Result<Option<SerializeHandle<'_>>, Error>, post: MapEm<'_>) -> bool;
pub uninterp spec fn value_gave(st: Open, pre: MapEm<'_>, r: Result<SerializeHandle<'_>, Error>, post: MapEm<'_>) -> bool;
pub uninterp spec fn struct_gave(st: Open, pre: StructEm<'_>, r: Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error>, post: StructEm<'_>) -> bool;
impl<'a> SeqEm<'a> {
    #[verifier::external_body]
    pub fn next(&mut self, state: &SerializerState) -> (r: Result<Option<SerializeHandle<'_>>, Error>) ensures seq_gave(state.descriptor_stack@, *old(self), r, *final(self)) { unimplemented!() }
}
impl<'a> MapEm<'a> {
    #[verifier::external_body]
    pub fn next_key(&mut self, state: &SerializerState) -> (r: Result<Option<SerializeHandle<'_>>, Error>) ensures key_gave(state.descriptor_stack@, *old(self), r, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_value(&mut self, state: &SerializerState) -> (r: Result<SerializeHandle<'_>, Error>) ensures value_gave(state.descriptor_stack@, *old(self), r, *final(self)) { unimplemented!() }
}
impl<'a> StructEm<'a> {
    #[verifier::external_body]
    pub fn next(&mut self, state: &SerializerState) -> (r: Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error>) ensures struct_gave(state.descriptor_stack@, *old(self), r, *final(self)) { unimplemented!() }
}
// std::mem::transmute between types that differ in lifetimes only
#[verifier::external_body]
pub fn vf_extend<T>(x: T) -> (r: T) ensures r == x { unimplemented!() }
#[verifier::external_body]
pub fn vf_extend_handle<'x>(x: SerializeHandle<'x>) -> (r: SerializeHandle<'static>) ensures r == x { unimplemented!() }
#[verifier::external_body]
pub fn vf_extend_opt<'x>(x: Option<SerializeHandle<'x>>) -> (r: Option<SerializeHandle<'static>>) ensures r == x { unimplemented!() }
#[verifier::external_body]
pub fn vf_extend_field<'x>(x: Option<(Cow<'x, str>, SerializeHandle<'x>)>) -> (r: Option<(Cow<'static, str>, SerializeHandle<'static>)>) ensures r == x { unimplemented!() }
#[verifier::external_body]
pub fn vf_extend_chunk<'x>(x: Chunk<'x>) -> (r: Chunk<'static>) ensures r == x { unimplemented!() }
#[verifier::external_body]
pub fn vf_extend_desc<'x>(x: &'x dyn Descriptor) -> (r: &'static dyn Descriptor) ensures r == x { unimplemented!() }
#[verifier::external_body]
pub fn vf_panic() -> ! requires false { panic!() }

// ---- the serialization driver as a transition system ---------------------------------
pub ghost struct Sv {
    pub states: Seq<DriverState>,
    pub sers: Seq<SerializableOnStack>,
    pub ems: Seq<Emitter>,
    pub descs: Seq<&'static dyn Descriptor>,
}
impl<'a> SerializeDriver<'a> {
    pub open spec fn sv(self) -> Sv { Sv { states: self.state_stack@, sers: self.serializable_stack@, ems: self.emitter_stack@, descs: self.state.descriptor_stack@ } }
}
pub open spec fn sval(s: SerializableOnStack) -> DynSer { match s { SerializableOnStack::Handle(h) => ser_of(h), SerializableOnStack::StrCow(c) => str_ser(cow_str(c)) } }
pub open spec fn is_em(s: DriverState) -> bool { !(s is Serialize) && !(s is FinishSerialize) }
pub open spec fn em_fits(s: DriverState, e: Emitter) -> bool {
    match s { DriverState::SeqEmitterAdvance => e is Seq, DriverState::MapEmitterNextKey | DriverState::MapEmitterNextValue => e is Map, DriverState::StructEmitterAdvance => e is Struct, _ => true }
}
/// The emitters and descriptors on the stacks are those of the open containers.
pub open spec fn ems_fit(states: Seq<DriverState>, ems: Seq<Emitter>) -> bool
    decreases states.len()
{
    if states.len() == 0 { ems.len() == 0 }
    else if is_em(states.last()) { ems.len() > 0 && em_fits(states.last(), ems.last()) && ems_fit(states.drop_last(), ems.drop_last()) }
    else { ems_fit(states.drop_last(), ems) }
}
pub open spec fn fit_top(rest: Seq<DriverState>, s: DriverState, ems: Seq<Emitter>) -> bool {
    if is_em(s) { ems.len() > 0 && em_fits(s, ems.last()) && ems_fit(rest, ems.drop_last()) } else { ems_fit(rest, ems) }
}
pub broadcast proof fn lemma_fit_push(states: Seq<DriverState>, s: DriverState, ems: Seq<Emitter>)
    ensures #[trigger] ems_fit(states.push(s), ems) == fit_top(states, s, ems),
{
    assert(states.push(s).drop_last() =~= states);
}
pub broadcast proof fn lemma_fit_set(states: Seq<DriverState>, i: int, s: DriverState, ems: Seq<Emitter>)
    requires i == states.len() - 1, i >= 0,
    ensures #[trigger] ems_fit(states.update(i, s), ems) == fit_top(states.drop_last(), s, ems),
{
    assert(states.update(i, s).drop_last() =~= states.drop_last());
}
pub broadcast proof fn lemma_drop_push<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.push(x).drop_last() == s,
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_drop_set<T>(s: Seq<T>, i: int, x: T)
    requires i == s.len() - 1, i >= 0,
    ensures #[trigger] s.update(i, x).drop_last() == s.drop_last(),
{ assert(s.update(i, x).drop_last() =~= s.drop_last()); }
pub broadcast proof fn lemma_fit_pop(s: Seq<DriverState>, i: int, x: DriverState, k: int, ems: Seq<Emitter>)
    requires i == k, k == s.len() - 1, k >= 0,
    ensures #[trigger] ems_fit(s.update(i, x).subrange(0, k), ems) == ems_fit(s.drop_last(), ems),
{ assert(s.update(i, x).subrange(0, k) =~= s.drop_last()); }
pub broadcast group fit { lemma_fit_pop, lemma_fit_push, lemma_fit_set, lemma_drop_push, lemma_drop_set }
pub open spec fn sv_ok(v: Sv) -> bool { v.sers.len() == v.states.len() && v.descs.len() == v.ems.len() && ems_fit(v.states, v.ems) }
pub open spec fn set_top<T>(s: Seq<T>, x: T) -> Seq<T> { s.drop_last().push(x) }

/// A step that produces no event.
pub open spec fn silent(v: Sv, w: Sv) -> bool {
    v.states.len() > 0 && w.descs =~= v.descs && match v.states.last() {
        DriverState::SeqEmitterAdvance => {
            &&& w.ems.len() == v.ems.len() && w.ems.drop_last() =~= v.ems.drop_last() && w.ems.last() is Seq
            &&& if w.states.len() > v.states.len() {
                &&& seq_gave(v.descs, v.ems.last()->Seq_0, Ok(Some(w.sers.last()->Handle_0)), w.ems.last()->Seq_0)
                &&& w.states =~= v.states.push(DriverState::Serialize) && w.sers.len() == v.sers.len() + 1 && w.sers.drop_last() =~= v.sers && w.sers.last() is Handle
            } else {
                &&& seq_gave(v.descs, v.ems.last()->Seq_0, Ok(None), w.ems.last()->Seq_0)
                &&& w.states =~= set_top(v.states, DriverState::PopEmitter) && w.sers =~= v.sers
            }
        },
        DriverState::MapEmitterNextKey => {
            &&& w.ems.len() == v.ems.len() && w.ems.drop_last() =~= v.ems.drop_last() && w.ems.last() is Map
            &&& if w.states.len() > v.states.len() {
                &&& key_gave(v.descs, v.ems.last()->Map_0, Ok(Some(w.sers.last()->Handle_0)), w.ems.last()->Map_0)
                &&& w.states =~= set_top(v.states, DriverState::MapEmitterNextValue).push(DriverState::Serialize) && w.sers.len() == v.sers.len() + 1 && w.sers.drop_last() =~= v.sers && w.sers.last() is Handle
            } else {
                &&& key_gave(v.descs, v.ems.last()->Map_0, Ok(None), w.ems.last()->Map_0)
                &&& w.states =~= set_top(v.states, DriverState::PopEmitter) && w.sers =~= v.sers
            }
        },
        DriverState::MapEmitterNextValue => {
            &&& w.ems.len() == v.ems.len() && w.ems.drop_last() =~= v.ems.drop_last() && w.ems.last() is Map
            &&& value_gave(v.descs, v.ems.last()->Map_0, Ok(w.sers.last()->Handle_0), w.ems.last()->Map_0)
            &&& w.states =~= set_top(v.states, DriverState::MapEmitterNextKey).push(DriverState::Serialize) && w.sers.len() == v.sers.len() + 1 && w.sers.drop_last() =~= v.sers && w.sers.last() is Handle
        },
        DriverState::StructEmitterAdvance => {
            &&& w.ems.len() == v.ems.len() && w.ems.drop_last() =~= v.ems.drop_last() && w.ems.last() is Struct
            &&& if w.states.len() > v.states.len() {
                &&& w.sers.len() == v.sers.len() + 2 && w.sers.drop_last().drop_last() =~= v.sers && w.sers.last() is StrCow && w.sers.drop_last().last() is Handle
                &&& struct_gave(v.descs, v.ems.last()->Struct_0, Ok(Some((w.sers.last()->StrCow_0, w.sers.drop_last().last()->Handle_0))), w.ems.last()->Struct_0)
                &&& w.states =~= v.states.push(DriverState::Serialize).push(DriverState::Serialize)
            } else {
                &&& struct_gave(v.descs, v.ems.last()->Struct_0, Ok(None), w.ems.last()->Struct_0)
                &&& w.states =~= set_top(v.states, DriverState::PopEmitter) && w.sers =~= v.sers
            }
        },
        DriverState::FinishSerialize => {
            &&& w.states =~= v.states.drop_last() && w.sers =~= v.sers.drop_last() && w.ems =~= v.ems
            &&& finished(v.descs, sval(v.sers.last()), Ok(()))
        },
        _ => false,
    }
}
/// A step that produces the event (e, d).
pub open spec fn emits(v: Sv, e: Ev, d: &dyn Descriptor, w: Sv) -> bool {
    v.states.len() > 0 && w.sers =~= v.sers && match v.states.last() {
        DriverState::Serialize => {
            let x = sval(v.sers.last());
            d == desc_ser(x) && match w.states.last() {
                DriverState::FinishSerialize => w.ems =~= v.ems && w.descs =~= v.descs && w.states =~= set_top(v.states, DriverState::FinishSerialize)
                    && exists|a: Atom<'_>| #[trigger] said(v.descs, x, Ok(Chunk::Atom(a))) && e == atom_ev(a),
                s => {
                    &&& w.ems.len() == v.ems.len() + 1 && w.ems.drop_last() =~= v.ems && w.descs =~= v.descs.push(desc_ser(x)) && w.states =~= set_top(v.states, s)
                    &&& match s {
                        DriverState::SeqEmitterAdvance => e == Ev::SeqStart && w.ems.last() is Seq && said(v.descs, x, Ok(Chunk::Seq(w.ems.last()->Seq_0))),
                        DriverState::MapEmitterNextKey => e == Ev::MapStart && w.ems.last() is Map && said(v.descs, x, Ok(Chunk::Map(w.ems.last()->Map_0))),
                        DriverState::StructEmitterAdvance => e == Ev::MapStart && w.ems.last() is Struct && said(v.descs, x, Ok(Chunk::Struct(w.ems.last()->Struct_0))),
                        _ => false,
                    }
                },
            }
        },
        DriverState::PopEmitter => {
            &&& w.states =~= set_top(v.states, DriverState::FinishSerialize) && w.ems =~= v.ems.drop_last() && w.descs =~= v.descs.drop_last()
            &&& d == v.descs.last() && e == (if v.ems.last() is Seq { Ev::SeqEnd } else { Ev::MapEnd })
        },
        _ => false,
    }
}
/// The object whose turn it is failed with e.
pub open spec fn fails(v: Sv, e: Error) -> bool {
    v.states.len() > 0 && match v.states.last() {
        DriverState::SeqEmitterAdvance => exists|p: SeqEm<'_>| #[trigger] seq_gave(v.descs, v.ems.last()->Seq_0, Err(e), p),
        DriverState::MapEmitterNextKey => exists|p: MapEm<'_>| #[trigger] key_gave(v.descs, v.ems.last()->Map_0, Err(e), p),
        DriverState::MapEmitterNextValue => exists|p: MapEm<'_>| #[trigger] value_gave(v.descs, v.ems.last()->Map_0, Err(e), p),
        DriverState::StructEmitterAdvance => exists|p: StructEm<'_>| #[trigger] struct_gave(v.descs, v.ems.last()->Struct_0, Err(e), p),
        DriverState::Serialize => said(v.descs, sval(v.sers.last()), Err(e)),
        DriverState::FinishSerialize => finished(v.descs, sval(v.sers.last()), Err(e)),
        _ => false,
    }
}
pub open spec fn silents(v: Sv, w: Sv, n: nat) -> bool
    decreases n
{
    if n == 0 { v == w } else { exists|u: Sv| silents(v, u, (n - 1) as nat) && #[trigger] silent(u, w) }
}
pub open spec fn reach(v: Sv, w: Sv) -> bool { exists|n: nat| silents(v, w, n) }
pub proof fn lemma_reach0(v: Sv) ensures reach(v, v) { assert(silents(v, v, 0)); }
pub proof fn lemma_reach1(v: Sv, u: Sv, w: Sv)
    requires reach(v, u), silent(u, w),
    ensures reach(v, w),
{
    let n = choose|n: nat| silents(v, u, n);
    assert(silents(v, w, n + 1));
}
/// What bounds the silent steps before the next event.
pub open spec fn to_go(v: Sv) -> int {
    if v.states.len() == 0 { 0 } else { match v.states.last() { DriverState::Serialize | DriverState::PopEmitter => 0, DriverState::FinishSerialize => 2 + v.states.len() as int, _ => 1 } }
}
/// One call of advance / next from v: the event it hands out, or the end.
pub open spec fn advanced(v: Sv, r: Result<Option<(Ev, &dyn Descriptor)>, Error>, w: Sv) -> bool {
    exists|m: Sv| #[trigger] reach(v, m) && sv_ok(m) && match r {
        Ok(Some((e, d))) => emits(m, e, d, w),
        Ok(None) => m.states.len() == 0 && w == m,
        Err(e) => fails(m, e),
    }
}
pub open spec fn next_ev<'a>(o: Option<(Event<'a>, &'a dyn Descriptor)>) -> Option<(Ev, &'a dyn Descriptor)> { match o { Some((e, d)) => Some((ev(e), d)), None => None } }

// ---- what the driver holds (C34) -------------------------------------------------
pub ghost enum Held { Event, Value(SerializableOnStack), Emitter(Emitter) }
impl VfHeld for SerializableOnStack { open spec fn held(&self) -> Seq<Held> { seq![Held::Value(*self)] } }
impl VfHeld for Emitter { open spec fn held(&self) -> Seq<Held> { seq![Held::Emitter(*self)] } }
impl<'a> VfHeld for Event<'a> { open spec fn held(&self) -> Seq<Held> { seq![Held::Event] } }
impl<'x> VfHeld for &'x dyn Descriptor { open spec fn held(&self) -> Seq<Held> { seq![] } }
impl VfHeld for DriverState { open spec fn held(&self) -> Seq<Held> { seq![] } }
impl<'a> VfHeld for SerializerState<'a> { open spec fn held(&self) -> Seq<Held> { seq![] } }
pub proof fn lemma_no_states(s: Seq<DriverState>)
    ensures held_all(s) == Seq::<Held>::empty()
    decreases s.len()
{
    if s.len() > 0 { lemma_no_states(s.drop_first()); }
}
/// What is on the stacks, from the innermost out: of a container its emitter and then the value it came from.
pub open spec fn unwind(v: Sv) -> Seq<Held>
    decreases v.states.len()
{
    if v.states.len() == 0 || v.sers.len() == 0 { seq![] }
    else if is_em(v.states.last()) { v.ems.last().held() + (v.sers.last().held() + unwind(Sv { states: v.states.drop_last(), sers: v.sers.drop_last(), ems: v.ems.drop_last(), descs: v.descs })) }
    else { v.sers.last().held() + unwind(Sv { states: v.states.drop_last(), sers: v.sers.drop_last(), ems: v.ems, descs: v.descs }) }
}
/// One emitter per open container, one value per state, one descriptor per emitter.
pub open spec fn owned(v: Sv) -> bool { sv_ok(v) }
pub open spec fn fits(v: Sv) -> bool { v.sers.len() == v.states.len() && ems_fit(v.states, v.ems) }
