// ---- from single calls to a whole traversal ------------------------------------------
pub type Log = Seq<(DynSer, Seq<Seg>)>;
pub open spec fn cut(k: int) -> bool { true }
pub open spec fn at(w: St) -> bool { true }
/// Every value of the tree of x was asked at its location, x itself at p; es lists them in order.
pub open spec fn located(x: DynSer, p: Seq<Seg>, es: Log) -> bool
    decreases es.len(), 0int
{
    es.len() > 0 && es[0] == (x, p) && ended(x, Ok(())) && exists|c: Chunk<'_>| #[trigger] asked(x, Ok(c)) && match c {
        Chunk::Atom(_) => es.len() == 1,
        Chunk::Seq(em) => seq_loc(em, 0, p, es.skip(1)),
        Chunk::Map(em) => map_loc(em, p, es.skip(1)),
        Chunk::Struct(em) => struct_loc(em, p, es.skip(1)),
    }
}
pub open spec fn seq_loc(em: SeqEm<'_>, i: int, p: Seq<Seg>, es: Log) -> bool
    decreases es.len(), 1int
{
    exists|r: Option<SerializeHandle<'_>>, em2: SeqEm<'_>| #[trigger] seq_gave(em, Ok(r), em2) && match r {
        None => es.len() == 0,
        Some(h) => exists|k: int| #[trigger] cut(k) && 0 < k <= es.len() && located(ser_of(h), p.push(Seg::Index(i)), es.take(k)) && seq_loc(em2, i + 1, p, es.skip(k)),
    }
}
pub open spec fn struct_loc(em: StructEm<'_>, p: Seq<Seg>, es: Log) -> bool
    decreases es.len(), 1int
{
    exists|r: Option<(Cow<'_, str>, SerializeHandle<'_>)>, em2: StructEm<'_>| #[trigger] struct_gave(em, Ok(r), em2) && match r {
        None => es.len() == 0,
        Some((key, h)) => exists|k: int| #[trigger] cut(k) && 0 < k <= es.len() && located(ser_of(h), p.push(Seg::Key(cow_str(key))), es.take(k)) && struct_loc(em2, p, es.skip(k)),
    }
}
pub open spec fn map_loc(em: MapEm<'_>, p: Seq<Seg>, es: Log) -> bool
    decreases es.len(), 1int
{
    exists|r: Option<SerializeHandle<'_>>, em2: MapEm<'_>| #[trigger] key_gave(em, Ok(r), em2) && match r {
        None => es.len() == 0,
        Some(h) => exists|k: int, g: Seg| #[trigger] cut(k) && 0 < k <= es.len() && #[trigger] key_loc(ser_of(h), p, g, es.take(k)) && value_loc(em2, g, p, es.skip(k)),
    }
}
/// A key and whatever it contains is located at its map; g is the segment it stands for.
pub open spec fn key_loc(x: DynSer, p: Seq<Seg>, g: Seg, es: Log) -> bool {
    es.len() > 0 && es[0] == (x, p) && ended(x, Ok(())) && (forall|j: int| 0 <= j < es.len() ==> (#[trigger] es[j]).1 == p)
        && exists|c: Chunk<'_>| #[trigger] asked(x, Ok(c)) && g == seg_of(c) && (c is Atom ==> es.len() == 1)
}
pub open spec fn seg_of(c: Chunk<'_>) -> Seg { match key_seg(c) { Some(g) => g, None => Seg::Unknown } }
pub open spec fn value_loc(em: MapEm<'_>, g: Seg, p: Seq<Seg>, es: Log) -> bool
    decreases es.len(), 1int
{
    exists|h: SerializeHandle<'_>, em2: MapEm<'_>| #[trigger] value_gave(em, Ok(h), em2)
        && exists|k: int| #[trigger] cut(k) && 0 < k <= es.len() && located(ser_of(h), p.push(g), es.take(k)) && map_loc(em2, p, es.skip(k))
}

// The calls a driver makes (C17), on the wrappers; n bounds their number.
pub open spec fn run_push(x: SegmentPushingSerializable<'_>, a: St, b: St, n: nat) -> bool
    decreases n, 1int
{
    n > 0 && exists|o: Chunk<'_>, m: St, w: St| #[trigger] push_ser(x, a, Ok(o), m) && run_chunk(o, m, w, (n - 1) as nat) && #[trigger] push_fin(x, w, Ok(()), b)
}
pub open spec fn run_top(x: PathSerializable<'_>, a: St, b: St, n: nat) -> bool {
    exists|o: Chunk<'_>, m: St, w: St| #[trigger] ser_tracked(ser_of(x.serializable), a, Ok(o), m) && run_chunk(o, m, w, n) && #[trigger] call_fin(ser_of(x.serializable), w, Ok(()), b)
}
pub open spec fn run_chunk(o: Chunk<'_>, a: St, b: St, n: nat) -> bool
    decreases n, 1int
{
    match o {
        Chunk::Atom(_) => a == b,
        Chunk::Seq(em) => n > 0 && run_seq(held(em), a, b, (n - 1) as nat),
        Chunk::Map(em) => n > 0 && run_map(held(em), a, b, (n - 1) as nat),
        Chunk::Struct(em) => n > 0 && run_struct(held(em), a, b, (n - 1) as nat),
    }
}
pub open spec fn after_seq(r: Option<SerializeHandle<'_>>, f: PathSeqEmitter<'_>, m: St, b: St, n: nat) -> bool
    decreases n, 0int
{
    match r {
        None => m == b,
        Some(h) => n > 0 && exists|w: St| #[trigger] at(w) && run_push(owned(h), m, w, (n - 1) as nat) && run_seq(f, w, b, (n - 1) as nat),
    }
}
pub open spec fn run_seq(e: PathSeqEmitter<'_>, a: St, b: St, n: nat) -> bool
    decreases n, 1int
{
    exists|r: Option<SerializeHandle<'_>>, f: PathSeqEmitter<'_>, m: St| #[trigger] pseq_next(e, a, Ok(r), f, m) && after_seq(r, f, m, b, n)
}
pub open spec fn after_struct(r: Option<(Cow<'_, str>, SerializeHandle<'_>)>, f: PathStructEmitter<'_>, m: St, b: St, n: nat) -> bool
    decreases n, 0int
{
    match r {
        None => m == b,
        Some((_, h)) => n > 0 && exists|w: St| #[trigger] at(w) && run_push(owned(h), m, w, (n - 1) as nat) && run_struct(f, w, b, (n - 1) as nat),
    }
}
pub open spec fn run_struct(e: PathStructEmitter<'_>, a: St, b: St, n: nat) -> bool
    decreases n, 1int
{
    exists|r: Option<(Cow<'_, str>, SerializeHandle<'_>)>, f: PathStructEmitter<'_>, m: St| #[trigger] pstruct_next(e, a, Ok(r), f, m) && after_struct(r, f, m, b, n)
}
pub open spec fn after_map(r: Option<SerializeHandle<'_>>, f: PathMapEmitter<'_>, m: St, b: St, n: nat) -> bool
    decreases n, 0int
{
    match r {
        None => m == b,
        Some(h) => n > 0 && exists|w: St| #[trigger] at(w) && run_key(owned(h), m, w) && run_value(f, w, b, (n - 1) as nat),
    }
}
pub open spec fn run_map(e: PathMapEmitter<'_>, a: St, b: St, n: nat) -> bool
    decreases n, 1int
{
    exists|r: Option<SerializeHandle<'_>>, f: PathMapEmitter<'_>, m: St| #[trigger] pmap_key(e, a, Ok(r), f, m) && after_map(r, f, m, b, n)
}
/// A key that is a container is traversed without wrappers: all of it at one path.
pub open spec fn run_key(x: SegmentCollectingSerializable<'_>, a: St, b: St) -> bool {
    exists|o: Chunk<'_>, m: St, w: St| #[trigger] coll_ser(x, a, Ok(o), m) && (o is Atom ==> m == w) && unwrapped(m, w) && #[trigger] call_fin(ser_of(x.serializable), w, Ok(()), b)
}
pub open spec fn unwrapped(m: St, w: St) -> bool {
    w.path == m.path && kept(m.cells, w.cells) && ext(m, w) && forall|j: int| m.log.len() <= j < w.log.len() ==> (#[trigger] w.log[j]).1 == m.path
}
pub open spec fn run_value(e: PathMapEmitter<'_>, a: St, b: St, n: nat) -> bool
    decreases n, 1int
{
    exists|h: SerializeHandle<'_>, f: PathMapEmitter<'_>, m: St| #[trigger] pmap_value(e, a, Ok(h), f, m)
        && n > 0 && exists|w: St| #[trigger] at(w) && run_push(owned(h), m, w, (n - 1) as nat) && run_map(f, w, b, (n - 1) as nat)
}
pub open spec fn ext(a: St, b: St) -> bool { a.log.len() <= b.log.len() && b.log.take(a.log.len() as int) == a.log }
pub open spec fn new_log(a: St, b: St) -> Log { b.log.skip(a.log.len() as int) }
pub proof fn lemma_ext(a: St, b: St, c: St)
    requires ext(a, b), ext(b, c),
    ensures ext(a, c), new_log(a, c) == new_log(a, b) + new_log(b, c),
        new_log(a, c).take(b.log.len() - a.log.len()) == new_log(a, b), new_log(a, c).skip(b.log.len() - a.log.len()) == new_log(b, c),
{
    assert(c.log.take(a.log.len() as int) =~= c.log.take(b.log.len() as int).take(a.log.len() as int));
    assert(new_log(a, c) =~= new_log(a, b) + new_log(b, c)) by {
        assert forall|i: int| 0 <= i < b.log.len() implies c.log[i] == b.log[i] by { assert(c.log.take(b.log.len() as int)[i] == c.log[i]); }
    }
    assert(new_log(a, c).take(b.log.len() - a.log.len()) =~= new_log(a, b));
    assert(new_log(a, c).skip(b.log.len() - a.log.len()) =~= new_log(b, c));
}
pub proof fn lemma_same_log(a: St, b: St)
    requires a.log == b.log,
    ensures ext(a, b), new_log(a, b).len() == 0,
{ assert(b.log.take(a.log.len() as int) =~= a.log); }
/// A value of its own: asked at the end of the tracked path, which is as before afterwards.
pub proof fn lemma_push(x: SegmentPushingSerializable<'_>, a: St, b: St, n: nat)
    requires run_push(x, a, b, n), a.cells.contains_key(x.segment.id()), a.cells[x.segment.id()] is Some,
    ensures b.path =~= a.path, ext(a, b), located(ser_of(x.serializable), a.path.push(a.cells[x.segment.id()]->Some_0), new_log(a, b)),
        kept_but(a.cells, x.segment.id(), b.cells),
    decreases n, 0int
{
    let (o, m, w) = choose|o: Chunk<'_>, m: St, w: St| #[trigger] push_ser(x, a, Ok(o), m) && run_chunk(o, m, w, (n - 1) as nat) && #[trigger] push_fin(x, w, Ok(()), b);
    let a1 = pushed(x, a);
    lemma_body(ser_of(x.serializable), a1, o, m, w, (n - 1) as nat);
    assert(a1.path.drop_last() =~= a.path);
    assert(ext(a, b) && new_log(a, b) == new_log(a1, w));
}
pub proof fn lemma_body(x: DynSer, a: St, o: Chunk<'_>, m: St, w: St, n: nat)
    requires ser_tracked(x, a, Ok(o), m), run_chunk(o, m, w, n),
    ensures w.path =~= a.path, ext(a, w), ended(x, Ok(())) ==> located(x, a.path, new_log(a, w)), kept(a.cells, w.cells),
    decreases n, 3int
{
    let (r0, a0, b0) = choose|r0: Result<Chunk<'_>, Error>, a0: St, b0: St| #[trigger] call_ser(x, a0, r0, b0) && a0.path =~= a.path && a0.log =~= a.log && kept(a.cells, a0.cells) && quiet(b0, m)
        && (r0 is Ok && tracked(r0->Ok_0, a, o, m));
    let c = r0->Ok_0;
    assert(asked(x, Ok(c)));
    assert(m.log == a.log.push((x, a.path)));
    assert(m.log.take(a.log.len() as int) =~= a.log);
    assert(new_log(a, m) =~= seq![(x, a.path)]);
    match c {
        Chunk::Atom(_) => { assert(m == w); }
        Chunk::Seq(em) => { lemma_seq(held(o->Seq_0), m, w, (n - 1) as nat); lemma_ext(a, m, w); }
        Chunk::Struct(em) => { lemma_struct(held(o->Struct_0), m, w, (n - 1) as nat); lemma_ext(a, m, w); }
        Chunk::Map(em) => { lemma_map(held(o->Map_0), m, w, (n - 1) as nat); lemma_ext(a, m, w); }
    }
}
pub proof fn lemma_seq(e: PathSeqEmitter<'_>, a: St, b: St, n: nat)
    requires run_seq(e, a, b, n),
    ensures b.path =~= a.path, ext(a, b), kept(a.cells, b.cells), seq_loc(e.emitter, e.index as int, a.path, new_log(a, b)),
    decreases n, 1int
{
    let (r, f, m) = choose|r: Option<SerializeHandle<'_>>, f: PathSeqEmitter<'_>, m: St| #[trigger] pseq_next(e, a, Ok(r), f, m) && after_seq(r, f, m, b, n);
    let r0 = choose|r0: Result<Option<SerializeHandle<'_>>, Error>| #[trigger] seq_gave(e.emitter, r0, f.emitter) && match r0 {
        Err(_) => false,
        Ok(None) => r is None,
        Ok(Some(h)) => r is Some && pushing(r->Some_0, h, Seg::Index(e.index as int), a, m) && f.index == e.index + 1,
    };
    lemma_same_log(a, m);
    match r {
        None => { assert(seq_gave(e.emitter, Ok(None), f.emitter)); }
        Some(h) => {
            let w = choose|w: St| #[trigger] at(w) && run_push(owned(h), m, w, (n - 1) as nat) && run_seq(f, w, b, (n - 1) as nat);
            lemma_push(owned(h), m, w, (n - 1) as nat);
            lemma_seq(f, w, b, (n - 1) as nat);
            lemma_ext(m, w, b);
            assert(new_log(a, b) == new_log(m, b));
            assert(cut(w.log.len() - m.log.len()));
            assert(seq_gave(e.emitter, Ok(Some(r0->Ok_0->Some_0)), f.emitter));
        }
    }
}
pub proof fn lemma_struct(e: PathStructEmitter<'_>, a: St, b: St, n: nat)
    requires run_struct(e, a, b, n),
    ensures b.path =~= a.path, ext(a, b), kept(a.cells, b.cells), struct_loc(e.emitter, a.path, new_log(a, b)),
    decreases n, 1int
{
    let (r, f, m) = choose|r: Option<(Cow<'_, str>, SerializeHandle<'_>)>, f: PathStructEmitter<'_>, m: St| #[trigger] pstruct_next(e, a, Ok(r), f, m) && after_struct(r, f, m, b, n);
    let r0 = choose|r0: Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error>| #[trigger] struct_gave(e.emitter, r0, f.emitter) && match r0 {
        Err(_) => false,
        Ok(None) => r is None,
        Ok(Some((k, h))) => r is Some && pushing(r->Some_0.1, h, Seg::Key(cow_str(k)), a, m),
    };
    lemma_same_log(a, m);
    match r {
        None => { assert(struct_gave(e.emitter, Ok(None), f.emitter)); }
        Some((_, h)) => {
            let w = choose|w: St| #[trigger] at(w) && run_push(owned(h), m, w, (n - 1) as nat) && run_struct(f, w, b, (n - 1) as nat);
            lemma_push(owned(h), m, w, (n - 1) as nat);
            lemma_struct(f, w, b, (n - 1) as nat);
            lemma_ext(m, w, b);
            assert(new_log(a, b) == new_log(m, b));
            assert(cut(w.log.len() - m.log.len()));
            assert(struct_gave(e.emitter, Ok(Some(r0->Ok_0->Some_0)), f.emitter));
        }
    }
}
pub proof fn lemma_map(e: PathMapEmitter<'_>, a: St, b: St, n: nat)
    requires run_map(e, a, b, n), a.cells.contains_key(e.path_segment.id()), a.cells[e.path_segment.id()] is None,
    ensures b.path =~= a.path, ext(a, b), kept(a.cells, b.cells), map_loc(e.emitter, a.path, new_log(a, b)),
    decreases n, 2int
{
    let id = e.path_segment.id();
    let (r, f, m) = choose|r: Option<SerializeHandle<'_>>, f: PathMapEmitter<'_>, m: St| #[trigger] pmap_key(e, a, Ok(r), f, m) && after_map(r, f, m, b, n);
    let r0 = choose|r0: Result<Option<SerializeHandle<'_>>, Error>| #[trigger] key_gave(e.emitter, r0, f.emitter) && match r0 {
        Err(_) => false,
        Ok(None) => r is None,
        Ok(Some(h)) => r is Some && collecting(r->Some_0, h, e.path_segment),
    };
    lemma_same_log(a, m);
    match r {
        None => { assert(key_gave(e.emitter, Ok(None), f.emitter)); }
        Some(h) => {
            let w = choose|w: St| #[trigger] at(w) && run_key(owned(h), m, w) && run_value(f, w, b, (n - 1) as nat);
            let x: SegmentCollectingSerializable<'_> = owned(h);
            let (o, m1, w1) = choose|o: Chunk<'_>, m1: St, w1: St| #[trigger] coll_ser(x, m, Ok(o), m1) && (o is Atom ==> m1 == w1) && unwrapped(m1, w1) && #[trigger] call_fin(ser_of(x.serializable), w1, Ok(()), w);
            let (c0, b0) = choose|c0: Result<Chunk<'_>, Error>, b0: St| #[trigger] call_ser(ser_of(x.serializable), m, c0, b0) && (c0 is Ok && same_chunk(c0->Ok_0, o) && m1.path == b0.path && m1.log == b0.log
                && m1.cells =~= (match key_seg(c0->Ok_0) { Some(g) => b0.cells.insert(id, Some(g)), None => b0.cells }));
            let c = c0->Ok_0;
            let g = seg_of(c);
            assert(asked(ser_of(x.serializable), Ok(c)));
            assert(m1.log == m.log.push((ser_of(x.serializable), m.path)));
            assert(m1.log.take(m.log.len() as int) =~= m.log);
            lemma_ext(m, m1, w1);
            assert(ext(m, w) && new_log(m, w) == new_log(m, w1));
            assert(w1.log[m.log.len() as int] == m1.log[m.log.len() as int]) by { assert(w1.log.take(m1.log.len() as int)[m.log.len() as int] == w1.log[m.log.len() as int]); }
            assert(key_loc(ser_of(x.serializable), a.path, g, new_log(m, w)));
            assert(w.cells.contains_key(id) && w.cells[id] == key_seg(c));
            assert(kept_but(a.cells, id, w.cells));
            lemma_value(f, w, b, (n - 1) as nat);
            lemma_ext(m, w, b);
            assert(new_log(a, b) == new_log(m, b));
            assert(cut(w.log.len() - m.log.len()));
            assert(key_gave(e.emitter, Ok(Some(r0->Ok_0->Some_0)), f.emitter));
        }
    }
}
pub proof fn lemma_value(e: PathMapEmitter<'_>, a: St, b: St, n: nat)
    requires run_value(e, a, b, n), a.cells.contains_key(e.path_segment.id()),
    ensures b.path =~= a.path, ext(a, b), kept_but(a.cells, e.path_segment.id(), b.cells),
        b.cells.contains_key(e.path_segment.id()) && b.cells[e.path_segment.id()] is None,
        value_loc(e.emitter, match a.cells[e.path_segment.id()] { Some(g) => g, None => Seg::Unknown }, a.path, new_log(a, b)),
    decreases n, 1int
{
    let id = e.path_segment.id();
    let (h, f, m) = choose|h: SerializeHandle<'_>, f: PathMapEmitter<'_>, m: St| #[trigger] pmap_value(e, a, Ok(h), f, m)
        && n > 0 && exists|w: St| #[trigger] at(w) && run_push(owned(h), m, w, (n - 1) as nat) && run_map(f, w, b, (n - 1) as nat);
    let w = choose|w: St| #[trigger] at(w) && run_push(owned(h), m, w, (n - 1) as nat) && run_map(f, w, b, (n - 1) as nat);
    let g = match a.cells[id] { Some(g) => g, None => Seg::Unknown };
    let h0 = choose|r0: Result<SerializeHandle<'_>, Error>| #[trigger] value_gave(e.emitter, r0, f.emitter) && (r0 is Ok && pushing(h, r0->Ok_0, g, St { cells: a.cells.insert(id, None), ..a }, m));
    lemma_same_log(a, m);
    assert(a.cells.insert(id, None).contains_key(id));
    let x: SegmentPushingSerializable<'_> = owned(h);
    assert(m.cells.contains_key(id) && m.cells[id] is None && x.segment.id() != id);
    lemma_push(x, m, w, (n - 1) as nat);
    lemma_map(f, w, b, (n - 1) as nat);
    lemma_ext(m, w, b);
    assert(new_log(a, b) == new_log(m, b));
    assert(cut(w.log.len() - m.log.len()));
    assert(value_gave(e.emitter, Ok(h0->Ok_0), f.emitter));
}
/// C21: a wrapped value's traversal asks every value at its location and leaves the path as it was.
pub proof fn lemma_top(x: PathSerializable<'_>, a: St, b: St, n: nat)
    requires run_top(x, a, b, n), a.path.len() == 0,
    ensures b.path.len() == 0, located(ser_of(x.serializable), Seq::empty(), new_log(a, b)),
{
    let (o, m, w) = choose|o: Chunk<'_>, m: St, w: St| #[trigger] ser_tracked(ser_of(x.serializable), a, Ok(o), m) && run_chunk(o, m, w, n) && #[trigger] call_fin(ser_of(x.serializable), w, Ok(()), b);
    lemma_body(ser_of(x.serializable), a, o, m, w, n);
    assert(a.path =~= Seq::empty());
    assert(new_log(a, b) == new_log(a, w));
}
