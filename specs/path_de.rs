// ---- what deser-path's deserialization side calls ------------------------------------
pub enum Call { Atom(Ev), Map, Seq, NextKey, NextValue, Finish }
/// Handles name sinks: c turned the sink h from pre into post and returned r.
#[verifier::external_body]
pub struct SinkHandle<'a> { _p: std::marker::PhantomData<&'a ()> }
pub uninterp spec fn did(pre: SinkHandle<'_>, c: Call, r: Result<(), Error>, post: SinkHandle<'_>) -> bool;
pub uninterp spec fn gave(pre: SinkHandle<'_>, c: Call, r: Result<SinkHandle<'_>, Error>, post: SinkHandle<'_>) -> bool;
pub uninterp spec fn desc_of(h: SinkHandle<'_>) -> &'static dyn Descriptor;
pub uninterp spec fn wanted(h: SinkHandle<'_>) -> Seq<char>;
/// The sink h owns.
pub uninterp spec fn owned<S>(h: SinkHandle<'_>) -> S;
/// dyn Sink
#[verifier::external_body]
pub struct DynSink { _p: () }
/// h borrows a sink that is pre now and post when the borrow ends.
pub uninterp spec fn borrows(h: SinkHandle<'_>, pre: DynSink, post: DynSink) -> bool;
/// Sinks leave the tracked path and other wrappers' cells alone.
pub open spec fn quiet(a: St, b: St) -> bool { a.path == b.path && a.log == b.log && kept(a.cells, b.cells) }
pub open spec fn noted(a: St, e: Ev, b: St) -> bool { a.path == b.path && b.log =~= a.log.push((e, a.path)) && kept(a.cells, b.cells) }
impl<'a> SinkHandle<'a> {
    #[verifier::external_body]
    pub fn boxed<S: 'a>(val: S) -> (r: SinkHandle<'a>) ensures owned::<S>(r) == val { unimplemented!() }
    #[verifier::external_body]
    pub fn to(val: &'a mut DynSink) -> (r: SinkHandle<'a>) ensures borrows(r, *old(val), *final(val)) { unimplemented!() }
    #[verifier::external_body]
    pub fn atom(&mut self, atom: Atom, state: &mut DeserializerState, vf: &mut VfCells) -> (r: Result<(), Error>)
        ensures did(*old(self), Call::Atom(atom_ev(atom)), r, *final(self)), noted(st(*old(state), *old(vf)), atom_ev(atom), st(*final(state), *final(vf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn map(&mut self, state: &mut DeserializerState, vf: &mut VfCells) -> (r: Result<(), Error>)
        ensures did(*old(self), Call::Map, r, *final(self)), quiet(st(*old(state), *old(vf)), st(*final(state), *final(vf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn seq(&mut self, state: &mut DeserializerState, vf: &mut VfCells) -> (r: Result<(), Error>)
        ensures did(*old(self), Call::Seq, r, *final(self)), quiet(st(*old(state), *old(vf)), st(*final(state), *final(vf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_key(&mut self, state: &mut DeserializerState, vf: &mut VfCells) -> (r: Result<SinkHandle<'_>, Error>)
        ensures gave(*old(self), Call::NextKey, r, *final(self)), quiet(st(*old(state), *old(vf)), st(*final(state), *final(vf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_value(&mut self, state: &mut DeserializerState, vf: &mut VfCells) -> (r: Result<SinkHandle<'_>, Error>)
        ensures gave(*old(self), Call::NextValue, r, *final(self)), quiet(st(*old(state), *old(vf)), st(*final(state), *final(vf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self, state: &mut DeserializerState, vf: &mut VfCells) -> (r: Result<(), Error>)
        ensures did(*old(self), Call::Finish, r, *final(self)), quiet(st(*old(state), *old(vf)), st(*final(state), *final(vf))) { unimplemented!() }
    #[verifier::external_body]
    pub fn descriptor(&self) -> (r: &dyn Descriptor) ensures r == desc_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn expecting(&self) -> (r: Cow<'_, str>) ensures cow_str(r) == wanted(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_panic() -> ! requires false { panic!() }
/// usize::try_from(x).ok()
#[verifier::external_body]
pub fn vf_usize(x: i64) -> (r: Option<usize>) ensures r == (if x >= 0 { Some(x as usize) } else { None::<usize> }) { usize::try_from(x).ok() }
/// *v.last_mut().unwrap() = x
#[verifier::external_body]
pub fn vf_set_last<T>(v: &mut Vec<T>, x: T) requires old(v)@.len() > 0, ensures final(v)@ == old(v)@.drop_last().push(x) { *v.last_mut().unwrap() = x; }

// ---- what the wrapper does, call by call ---------------------------------------------
pub open spec fn ev_seg(e: Ev) -> Option<Seg> {
    match e { Ev::Str(s) => Some(Seg::Key(s)), Ev::U64(v) => Some(Seg::Index(v as int)), Ev::I64(v) => if v >= 0 { Some(Seg::Index(v as int)) } else { None }, _ => None }
}
/// A segment to set replaces the last one of the path.
pub open spec fn here(x: PathSink<'_>, p: Seq<Seg>) -> Seq<Seg> { match oseg(x.set_segment) { Some(g) => p.drop_last().push(g), None => p } }
pub open spec fn settled(x: PathSink<'_>, p: Seq<Seg>) -> bool { x.set_segment is Some ==> p.len() > 0 }
/// The same kind of container, with the same cell.
pub open spec fn same_container(c: Container, d: Container) -> bool {
    match c { Container::None => d is None, Container::Map(i) => d is Map && d->Map_0.id() == i.id(), Container::Seq(i) => d == c }
}
pub open spec fn ps_set(x: PathSink<'_>, a: St, y: PathSink<'_>, b: St) -> bool {
    b.path =~= here(x, a.path) && b.log == a.log && b.cells == a.cells && y.sink == x.sink && same_container(x.container, y.container) && y.set_segment is None && y.pushed == x.pushed
}
pub open spec fn ps_atom(x: PathSink<'_>, a: St, e: Ev, r: Result<(), Error>, y: PathSink<'_>, b: St) -> bool {
    did(x.sink, Call::Atom(e), r, y.sink) && b.path =~= here(x, a.path) && b.log =~= a.log.push((e, here(x, a.path)))
    && same_container(x.container, y.container) && y.set_segment is None && y.pushed == x.pushed
    && match x.container { Container::Map(c) => kept_but(a.cells, c.id(), b.cells) && b.cells.contains_key(c.id()) && b.cells[c.id()] == ev_seg(e), _ => kept(a.cells, b.cells) }
}
pub open spec fn ps_open(x: PathSink<'_>, a: St, map: bool, r: Result<(), Error>, y: PathSink<'_>, b: St) -> bool {
    did(x.sink, if map { Call::Map } else { Call::Seq }, r, y.sink) && b.path =~= here(x, a.path).push(Seg::Unknown) && b.log == a.log && kept(a.cells, b.cells)
    && y.set_segment is None && y.pushed
    && if map { y.container is Map && !a.cells.contains_key(y.container->Map_0.id()) && b.cells.contains_key(y.container->Map_0.id()) && b.cells[y.container->Map_0.id()] is None }
       else { y.container == Container::Seq(0) }
}
pub open spec fn ps_key(x: PathSink<'_>, a: St, r: Result<SinkHandle<'_>, Error>, y: PathSink<'_>, b: St) -> bool {
    quiet(a, b) && same_container(x.container, y.container) && y.set_segment == x.set_segment && y.pushed == x.pushed
    && (r is Err ==> gave(x.sink, Call::NextKey, r, y.sink)) && (r is Ok ==> key_child(r->Ok_0, x, y))
}
pub open spec fn key_child(h: SinkHandle<'_>, x: PathSink<'_>, y: PathSink<'_>) -> bool {
    let z: PathSink<'_> = owned(h);
    gave(x.sink, Call::NextKey, Ok(z.sink), y.sink) && same_container(x.container, z.container) && z.set_segment is None && !z.pushed
}
/// Where the next value goes.
pub open spec fn place(x: PathSink<'_>, a: St) -> Option<Seg> {
    match x.container { Container::None => None, Container::Map(c) => (match a.cells[c.id()] { Some(g) => Some(g), None => Some(Seg::Unknown) }), Container::Seq(i) => Some(Seg::Index(i as int)) }
}
pub open spec fn ps_value(x: PathSink<'_>, a: St, r: Result<SinkHandle<'_>, Error>, y: PathSink<'_>, b: St) -> bool {
    a.path == b.path && a.log == b.log && y.set_segment == x.set_segment && y.pushed == x.pushed
    && (match x.container {
        Container::None => kept(a.cells, b.cells) && y.container is None,
        Container::Map(c) => kept_but(a.cells, c.id(), b.cells) && b.cells.contains_key(c.id()) && b.cells[c.id()] is None && same_container(x.container, y.container),
        Container::Seq(i) => kept(a.cells, b.cells) && y.container is Seq && y.container->Seq_0 == i + 1,
    })
    && (r is Err ==> gave(x.sink, Call::NextValue, r, y.sink)) && (r is Ok ==> value_child(r->Ok_0, x, a, y))
}
pub open spec fn value_child(h: SinkHandle<'_>, x: PathSink<'_>, a: St, y: PathSink<'_>) -> bool {
    let z: PathSink<'_> = owned(h);
    gave(x.sink, Call::NextValue, Ok(z.sink), y.sink) && z.container is None && oseg(z.set_segment) == place(x, a) && !z.pushed
}
pub open spec fn ps_finish(x: PathSink<'_>, a: St, r: Result<(), Error>, y: PathSink<'_>, b: St) -> bool {
    did(x.sink, Call::Finish, r, y.sink) && a.log == b.log && kept(a.cells, b.cells)
    && (r is Ok ==> b.path =~= (if x.pushed && a.path.len() > 0 { a.path.drop_last() } else { a.path }))
}
