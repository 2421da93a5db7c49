// ---- from single steps to the traversal of a value ---------------------------------
pub type TEv = (Ev, &'static dyn Descriptor);
pub open spec fn cut(k: int) -> bool { true }
pub open spec fn wrapped(es: Seq<TEv>, a: Ev, b: Ev, d: &'static dyn Descriptor) -> bool { es.len() >= 2 && es[0] == (a, d) && es.last() == (b, d) }
pub open spec fn mid(es: Seq<TEv>) -> Seq<TEv> { es.subrange(1, es.len() - 1) }
/// What C17 promises: es is the depth-first traversal of x; st is what is open around x.
pub open spec fn trav(st: Open, x: DynSer, es: Seq<TEv>) -> bool
    decreases es.len(), 0int
{
    finished(st, x, Ok(())) && exists|chunk: Chunk<'_>| #[trigger] said(st, x, Ok(chunk)) && match chunk {
        Chunk::Atom(a) => es.len() == 1 && es[0] == (atom_ev(a), desc_ser(x)),
        Chunk::Seq(em) => wrapped(es, Ev::SeqStart, Ev::SeqEnd, desc_ser(x)) && seq_items(st.push(desc_ser(x)), em, mid(es)),
        Chunk::Map(em) => wrapped(es, Ev::MapStart, Ev::MapEnd, desc_ser(x)) && map_items(st.push(desc_ser(x)), em, mid(es)),
        Chunk::Struct(em) => wrapped(es, Ev::MapStart, Ev::MapEnd, desc_ser(x)) && struct_items(st.push(desc_ser(x)), em, mid(es)),
    }
}
pub open spec fn seq_items(st: Open, em: SeqEm<'_>, es: Seq<TEv>) -> bool
    decreases es.len(), 1int
{
    exists|r: Option<SerializeHandle<'_>>, em2: SeqEm<'_>| #[trigger] seq_gave(st, em, Ok(r), em2) && match r {
        None => es.len() == 0,
        Some(h) => exists|k: int| #[trigger] cut(k) && 0 < k <= es.len() && trav(st, ser_of(h), es.take(k)) && seq_items(st, em2, es.skip(k)),
    }
}
pub open spec fn map_items(st: Open, em: MapEm<'_>, es: Seq<TEv>) -> bool
    decreases es.len(), 1int
{
    exists|r: Option<SerializeHandle<'_>>, em2: MapEm<'_>| #[trigger] key_gave(st, em, Ok(r), em2) && match r {
        None => es.len() == 0,
        Some(h) => exists|k: int| #[trigger] cut(k) && 0 < k <= es.len() && trav(st, ser_of(h), es.take(k)) && map_value(st, em2, es.skip(k)),
    }
}
pub open spec fn map_value(st: Open, em: MapEm<'_>, es: Seq<TEv>) -> bool
    decreases es.len(), 1int
{
    exists|h: SerializeHandle<'_>, em2: MapEm<'_>| #[trigger] value_gave(st, em, Ok(h), em2)
        && exists|k: int| #[trigger] cut(k) && 0 < k <= es.len() && trav(st, ser_of(h), es.take(k)) && map_items(st, em2, es.skip(k))
}
pub open spec fn struct_items(st: Open, em: StructEm<'_>, es: Seq<TEv>) -> bool
    decreases es.len(), 1int
{
    exists|r: Option<(Cow<'_, str>, SerializeHandle<'_>)>, em2: StructEm<'_>| #[trigger] struct_gave(st, em, Ok(r), em2) && match r {
        None => es.len() == 0,
        Some((key, h)) => exists|k: int, j: int| #[trigger] cut(k) && #[trigger] cut(j) && 0 < k < j <= es.len()
            && trav(st, str_ser(cow_str(key)), es.take(k)) && trav(st, ser_of(h), es.subrange(k, j)) && struct_items(st, em2, es.skip(j)),
    }
}
pub proof fn lemma_trav_some(st: Open, x: DynSer, es: Seq<TEv>)
    requires trav(st, x, es),
    ensures es.len() > 0,
{}
/// The driver goes from v to its end in n steps and produces es.
pub open spec fn runs(v: Sv, es: Seq<TEv>, n: nat) -> bool
    decreases n
{
    if n == 0 { v.states.len() == 0 && es.len() == 0 } else { runs_silent(v, es, n) || runs_emit(v, es, n) }
}
pub open spec fn runs_silent(v: Sv, es: Seq<TEv>, n: nat) -> bool
    decreases n, 0int
{
    n > 0 && exists|w: Sv| #[trigger] silent(v, w) && runs(w, es, (n - 1) as nat)
}
pub open spec fn runs_emit(v: Sv, es: Seq<TEv>, n: nat) -> bool
    decreases n, 0int
{
    n > 0 && es.len() > 0 && exists|w: Sv| #[trigger] emits(v, es[0].0, es[0].1, w) && runs(w, es.drop_first(), (n - 1) as nat)
}
/// What the innermost pending piece of work of v yields.
pub open spec fn frame(v: Sv, es: Seq<TEv>) -> bool {
    let x = sval(v.sers.last());
    let d = v.descs.last();
    match v.states.last() {
        DriverState::Serialize => trav(v.descs, x, es),
        DriverState::FinishSerialize => es.len() == 0 && finished(v.descs, x, Ok(())),
        DriverState::PopEmitter => es.len() == 1 && es[0] == (if v.ems.last() is Seq { Ev::SeqEnd } else { Ev::MapEnd }, d) && finished(v.descs.drop_last(), x, Ok(())),
        DriverState::SeqEmitterAdvance => es.len() > 0 && es.last() == (Ev::SeqEnd, d) && seq_items(v.descs, v.ems.last()->Seq_0, es.drop_last()) && finished(v.descs.drop_last(), x, Ok(())),
        DriverState::MapEmitterNextKey => es.len() > 0 && es.last() == (Ev::MapEnd, d) && map_items(v.descs, v.ems.last()->Map_0, es.drop_last()) && finished(v.descs.drop_last(), x, Ok(())),
        DriverState::MapEmitterNextValue => es.len() > 0 && es.last() == (Ev::MapEnd, d) && map_value(v.descs, v.ems.last()->Map_0, es.drop_last()) && finished(v.descs.drop_last(), x, Ok(())),
        DriverState::StructEmitterAdvance => es.len() > 0 && es.last() == (Ev::MapEnd, d) && struct_items(v.descs, v.ems.last()->Struct_0, es.drop_last()) && finished(v.descs.drop_last(), x, Ok(())),
    }
}
pub open spec fn popped(v: Sv) -> Sv {
    if is_em(v.states.last()) { Sv { states: v.states.drop_last(), sers: v.sers.drop_last(), ems: v.ems.drop_last(), descs: v.descs.drop_last() } }
    else { Sv { states: v.states.drop_last(), sers: v.sers.drop_last(), ems: v.ems, descs: v.descs } }
}
pub proof fn lemma_same(a: Sv, b: Sv)
    requires a.states =~= b.states, a.sers =~= b.sers, a.ems =~= b.ems, a.descs =~= b.descs,
    ensures a == b,
{}
pub proof fn lemma_silent_ok(v: Sv, w: Sv)
    requires sv_ok(v), silent(v, w),
    ensures sv_ok(w),
{
    broadcast use fit;
    match v.states.last() {
        DriverState::FinishSerialize => { assert(w.states == v.states.drop_last()); assert(w.ems == v.ems); }
        DriverState::StructEmitterAdvance => {
            if w.states.len() > v.states.len() {
                assert(w.states == v.states.push(DriverState::Serialize).push(DriverState::Serialize));
                assert(w.ems.drop_last() == v.ems.drop_last());
            } else { assert(w.states == set_top(v.states, DriverState::PopEmitter)); assert(w.ems.drop_last() == v.ems.drop_last()); }
        }
        DriverState::SeqEmitterAdvance => {
            assert(w.ems.drop_last() == v.ems.drop_last());
            if w.states.len() > v.states.len() { assert(w.states == v.states.push(DriverState::Serialize)); } else { assert(w.states == set_top(v.states, DriverState::PopEmitter)); }
        }
        DriverState::MapEmitterNextKey => {
            assert(w.ems.drop_last() == v.ems.drop_last());
            if w.states.len() > v.states.len() { assert(w.states == set_top(v.states, DriverState::MapEmitterNextValue).push(DriverState::Serialize)); } else { assert(w.states == set_top(v.states, DriverState::PopEmitter)); }
        }
        DriverState::MapEmitterNextValue => {
            assert(w.ems.drop_last() == v.ems.drop_last());
            assert(w.states == set_top(v.states, DriverState::MapEmitterNextKey).push(DriverState::Serialize));
        }
        _ => {}
    }
}
pub proof fn lemma_emits_ok(v: Sv, e: Ev, d: &'static dyn Descriptor, w: Sv)
    requires sv_ok(v), emits(v, e, d, w),
    ensures sv_ok(w),
{
    broadcast use fit;
    match v.states.last() {
        DriverState::Serialize => {
            let s = w.states.last();
            assert(w.states == set_top(v.states, s));
            if s is FinishSerialize { assert(w.ems == v.ems); } else { assert(w.ems.drop_last() == v.ems); }
        }
        _ => { assert(w.states == set_top(v.states, DriverState::FinishSerialize)); assert(w.ems == v.ems.drop_last()); }
    }
}
pub open spec fn done(v: Sv, es: Seq<TEv>, n: nat, k: int, m: nat) -> bool {
    0 <= k <= es.len() && m < n && frame(v, es.take(k)) && runs(popped(v), es.skip(k), m)
}
/// The pending work of v yields a prefix of the events; the rest comes after it.
pub proof fn lemma_frame(v: Sv, es: Seq<TEv>, n: nat) -> (r: (int, nat))
    requires sv_ok(v), v.states.len() > 0, runs(v, es, n),
    ensures done(v, es, n, r.0, r.1),
    decreases n, 1int,
{
    if runs_emit(v, es, n) { lemma_frame_emit(v, es, n) } else { lemma_frame_silent(v, es, n) }
}
pub proof fn lemma_frame_emit(v: Sv, es: Seq<TEv>, n: nat) -> (r: (int, nat))
    requires sv_ok(v), v.states.len() > 0, runs_emit(v, es, n),
    ensures done(v, es, n, r.0, r.1),
    decreases n, 0int,
{
    broadcast use fit;
    let w = choose|w: Sv| #[trigger] emits(v, es[0].0, es[0].1, w) && runs(w, es.drop_first(), (n - 1) as nat);
    lemma_emits_ok(v, es[0].0, es[0].1, w);
    let rest = es.drop_first();
    let (k2, m2) = lemma_frame(w, rest, (n - 1) as nat);
    let k = k2 + 1;
    lemma_same(popped(w), popped(v));
    assert(rest.skip(k2) =~= es.skip(k));
    let a = es.take(k);
    let b = rest.take(k2);
    assert(a[0] == es[0]);
    let x = sval(v.sers.last());
    assert(sval(w.sers.last()) == x);
    if v.states.last() is Serialize {
        if w.states.last() is FinishSerialize {
            assert(trav(v.descs, x, a));
        } else {
            assert(w.descs.last() == desc_ser(x));
            assert(a.last() == b.last());
            assert(mid(a) =~= b.drop_last());
            assert(trav(v.descs, x, a));
        }
    }
    (k, m2)
}
pub proof fn lemma_frame_silent(v: Sv, es: Seq<TEv>, n: nat) -> (r: (int, nat))
    requires sv_ok(v), v.states.len() > 0, runs_silent(v, es, n),
    ensures done(v, es, n, r.0, r.1),
    decreases n, 0int,
{
    broadcast use fit;
    let w = choose|w: Sv| #[trigger] silent(v, w) && runs(w, es, (n - 1) as nat);
    lemma_silent_ok(v, w);
    if v.states.last() is FinishSerialize {
        lemma_same(w, popped(v));
        assert(es.take(0).len() == 0);
        assert(es.skip(0) =~= es);
        return (0, (n - 1) as nat);
    }
    let (k1, m1) = lemma_frame(w, es, (n - 1) as nat);
    let a = es.take(k1);
    if w.states.last() is PopEmitter {
        // the emitter is exhausted
        lemma_same(popped(w), popped(v));
        assert(a.drop_last().len() == 0);
        assert(w.descs.last() == v.descs.last());
        return (k1, m1);
    }
    lemma_trav_some(w.descs, sval(w.sers.last()), a);
    let u = popped(w);
    assert(u.states =~= (if v.states.last() is MapEmitterNextKey { set_top(v.states, DriverState::MapEmitterNextValue) } else if v.states.last() is MapEmitterNextValue { set_top(v.states, DriverState::MapEmitterNextKey) } else if v.states.last() is StructEmitterAdvance { v.states.push(DriverState::Serialize) } else { v.states }));
    lemma_popped_ok(w);
    let es2 = es.skip(k1);
    let (k2, m2) = lemma_frame(u, es2, m1);
    let b = es2.take(k2);
    if !(v.states.last() is StructEmitterAdvance) {
        let k = k1 + k2;
        let c = es.take(k);
        lemma_same(popped(u), popped(v));
        assert(es2.skip(k2) =~= es.skip(k));
        assert(c.last() == b.last());
        assert(cut(k1));
        assert(c.drop_last().take(k1) =~= a);
        assert(c.drop_last().skip(k1) =~= b.drop_last());
        assert(frame(v, c));
        (k, m2)
    } else {
        lemma_trav_some(u.descs, sval(u.sers.last()), b);
        let t = popped(u);
        assert(t.states =~= v.states);
        lemma_popped_ok(u);
        let es3 = es2.skip(k2);
        let (k3, m3) = lemma_frame(t, es3, m2);
        let c3 = es3.take(k3);
        let k = k1 + k2 + k3;
        let c = es.take(k);
        lemma_same(popped(t), popped(v));
        assert(es3.skip(k3) =~= es.skip(k));
        assert(c.last() == c3.last());
        assert(cut(k1) && cut(k1 + k2));
        assert(c.drop_last().take(k1) =~= a);
        assert(c.drop_last().subrange(k1, k1 + k2) =~= b);
        assert(c.drop_last().skip(k1 + k2) =~= c3.drop_last());
        assert(frame(v, c));
        (k, m3)
    }
}
pub proof fn lemma_popped_ok(v: Sv)
    requires sv_ok(v), v.states.len() > 0,
    ensures sv_ok(popped(v)),
{}
/// C17: whenever the driver comes to the end of a value without an error, the
/// events it has handed out are the value's depth-first traversal.
pub proof fn lemma_traversal(x: DynSer, v: Sv, es: Seq<TEv>, n: nat)
    requires sv_ok(v), v.states =~= seq![DriverState::Serialize], sval(v.sers[0]) == x, runs(v, es, n),
    ensures trav(seq![], x, es),
{
    assert(v.states.last() is Serialize);
    assert(ems_fit(v.states.drop_last(), v.ems));
    assert(v.descs =~= seq![]);
    let (k, m) = lemma_frame(v, es, n);
    let rest = es.skip(k);
    let p = popped(v);
    assert(p.states.len() == 0);
    assert(rest.len() == 0) by {
        if m > 0 {
            assert(!runs_silent(p, rest, m)) by {
                if runs_silent(p, rest, m) { let w = choose|w: Sv| #[trigger] silent(p, w) && runs(w, rest, (m - 1) as nat); }
            }
            if runs_emit(p, rest, m) { let w = choose|w: Sv| #[trigger] emits(p, rest[0].0, rest[0].1, w) && runs(w, rest.drop_first(), (m - 1) as nat); }
        }
    }
    assert(es.take(k) =~= es);
}
// ---- a traversal is one value -----------------------------------------------------------
pub open spec fn kinds(es: Seq<TEv>) -> Seq<Ev> { es.map_values(|p: TEv| p.0) }
pub open spec fn then(es: Seq<TEv>, e: Ev, t: Seq<Ev>) -> Seq<Ev> { kinds(es) + (seq![e] + t) }
pub proof fn lemma_atom_kind(a: Atom<'_>)
    ensures !(atom_ev(a) is MapStart), !(atom_ev(a) is MapEnd), !(atom_ev(a) is SeqStart), !(atom_ev(a) is SeqEnd),
{}
/// C17: the events of a value that was serialized are one value, well nested.
pub proof fn lemma_one_value(st: Open, x: DynSer, es: Seq<TEv>)
    requires trav(st, x, es),
    ensures one_value(kinds(es)),
{
    lemma_one(st, x, es, seq![]);
    assert(kinds(es) + seq![] =~= kinds(es));
}
pub proof fn lemma_one(st: Open, x: DynSer, es: Seq<TEv>, t: Seq<Ev>)
    requires trav(st, x, es),
    ensures one(kinds(es) + t) == Some(t), es.len() > 0,
    decreases es.len(), 0int,
{
    let all = kinds(es) + t;
    let rest = all.skip(1);
    assert(all[0] == es[0].0);
    let chunk = choose|chunk: Chunk<'_>| #[trigger] said(st, x, Ok(chunk)) && match chunk {
        Chunk::Atom(a) => es.len() == 1 && es[0] == (atom_ev(a), desc_ser(x)),
        Chunk::Seq(em) => wrapped(es, Ev::SeqStart, Ev::SeqEnd, desc_ser(x)) && seq_items(st.push(desc_ser(x)), em, mid(es)),
        Chunk::Map(em) => wrapped(es, Ev::MapStart, Ev::MapEnd, desc_ser(x)) && map_items(st.push(desc_ser(x)), em, mid(es)),
        Chunk::Struct(em) => wrapped(es, Ev::MapStart, Ev::MapEnd, desc_ser(x)) && struct_items(st.push(desc_ser(x)), em, mid(es)),
    };
    match chunk {
        Chunk::Atom(a) => { lemma_atom_kind(a); assert(rest =~= t); }
        Chunk::Seq(em) => { lemma_one_items(st.push(desc_ser(x)), em, mid(es), t); assert(rest =~= then(mid(es), Ev::SeqEnd, t)); }
        Chunk::Map(em) => { lemma_one_map(st.push(desc_ser(x)), em, mid(es), t); assert(rest =~= then(mid(es), Ev::MapEnd, t)); }
        Chunk::Struct(em) => { lemma_one_struct(st.push(desc_ser(x)), em, mid(es), t); assert(rest =~= then(mid(es), Ev::MapEnd, t)); }
    }
}
/// The first of the events of an item, then the others.
pub proof fn lemma_then(es: Seq<TEv>, k: int, e: Ev, t: Seq<Ev>)
    requires 0 < k <= es.len(),
    ensures then(es, e, t) == kinds(es.take(k)) + then(es.skip(k), e, t), then(es, e, t).len() == es.len() + 1 + t.len(),
{
    assert(kinds(es.take(k)) + then(es.skip(k), e, t) =~= then(es, e, t));
}
pub proof fn lemma_one_items(st: Open, em: SeqEm<'_>, es: Seq<TEv>, t: Seq<Ev>)
    requires seq_items(st, em, es),
    ensures one_items(then(es, Ev::SeqEnd, t)) == Some(t),
    decreases es.len(), 1int,
{
    let all = then(es, Ev::SeqEnd, t);
    if es.len() == 0 { assert(all.skip(1) =~= t); } else {
        let (r, em2) = choose|r: Option<SerializeHandle<'_>>, em2: SeqEm<'_>| #[trigger] seq_gave(st, em, Ok(r), em2) && match r {
            None => es.len() == 0,
            Some(h) => exists|k: int| #[trigger] cut(k) && 0 < k <= es.len() && trav(st, ser_of(h), es.take(k)) && seq_items(st, em2, es.skip(k)),
        };
        let h = r->0;
        let k = choose|k: int| #[trigger] cut(k) && 0 < k <= es.len() && trav(st, ser_of(h), es.take(k)) && seq_items(st, em2, es.skip(k));
        lemma_then(es, k, Ev::SeqEnd, t);
        lemma_one(st, ser_of(h), es.take(k), then(es.skip(k), Ev::SeqEnd, t));
        lemma_one_items(st, em2, es.skip(k), t);
    }
}
pub proof fn lemma_one_map(st: Open, em: MapEm<'_>, es: Seq<TEv>, t: Seq<Ev>)
    requires map_items(st, em, es),
    ensures one_members(then(es, Ev::MapEnd, t), true) == Some(t),
    decreases es.len(), 1int,
{
    let all = then(es, Ev::MapEnd, t);
    if es.len() == 0 { assert(all.skip(1) =~= t); } else {
        let (r, em2) = choose|r: Option<SerializeHandle<'_>>, em2: MapEm<'_>| #[trigger] key_gave(st, em, Ok(r), em2) && match r {
            None => es.len() == 0,
            Some(h) => exists|k: int| #[trigger] cut(k) && 0 < k <= es.len() && trav(st, ser_of(h), es.take(k)) && map_value(st, em2, es.skip(k)),
        };
        let h = r->0;
        let k = choose|k: int| #[trigger] cut(k) && 0 < k <= es.len() && trav(st, ser_of(h), es.take(k)) && map_value(st, em2, es.skip(k));
        lemma_then(es, k, Ev::MapEnd, t);
        lemma_one(st, ser_of(h), es.take(k), then(es.skip(k), Ev::MapEnd, t));
        lemma_one_map_value(st, em2, es.skip(k), t);
    }
}
pub proof fn lemma_one_map_value(st: Open, em: MapEm<'_>, es: Seq<TEv>, t: Seq<Ev>)
    requires map_value(st, em, es),
    ensures one_members(then(es, Ev::MapEnd, t), false) == Some(t),
    decreases es.len(), 1int,
{
    let (h, em2) = choose|h: SerializeHandle<'_>, em2: MapEm<'_>| #[trigger] value_gave(st, em, Ok(h), em2)
        && exists|k: int| #[trigger] cut(k) && 0 < k <= es.len() && trav(st, ser_of(h), es.take(k)) && map_items(st, em2, es.skip(k));
    let k = choose|k: int| #[trigger] cut(k) && 0 < k <= es.len() && trav(st, ser_of(h), es.take(k)) && map_items(st, em2, es.skip(k));
    lemma_then(es, k, Ev::MapEnd, t);
    lemma_one(st, ser_of(h), es.take(k), then(es.skip(k), Ev::MapEnd, t));
    lemma_one_map(st, em2, es.skip(k), t);
}
pub proof fn lemma_one_struct(st: Open, em: StructEm<'_>, es: Seq<TEv>, t: Seq<Ev>)
    requires struct_items(st, em, es),
    ensures one_members(then(es, Ev::MapEnd, t), true) == Some(t),
    decreases es.len(), 1int,
{
    let all = then(es, Ev::MapEnd, t);
    if es.len() == 0 { assert(all.skip(1) =~= t); } else {
        let (r, em2) = choose|r: Option<(Cow<'_, str>, SerializeHandle<'_>)>, em2: StructEm<'_>| #[trigger] struct_gave(st, em, Ok(r), em2) && match r {
            None => es.len() == 0,
            Some((key, h)) => exists|k: int, j: int| #[trigger] cut(k) && #[trigger] cut(j) && 0 < k < j <= es.len()
                && trav(st, str_ser(cow_str(key)), es.take(k)) && trav(st, ser_of(h), es.subrange(k, j)) && struct_items(st, em2, es.skip(j)),
        };
        let (key, h) = r->0;
        let (k, j) = choose|k: int, j: int| #[trigger] cut(k) && #[trigger] cut(j) && 0 < k < j <= es.len()
            && trav(st, str_ser(cow_str(key)), es.take(k)) && trav(st, ser_of(h), es.subrange(k, j)) && struct_items(st, em2, es.skip(j));
        let b = es.skip(k);
        assert(b.take(j - k) =~= es.subrange(k, j));
        assert(b.skip(j - k) =~= es.skip(j));
        lemma_then(es, k, Ev::MapEnd, t);
        lemma_then(b, j - k, Ev::MapEnd, t);
        lemma_one(st, str_ser(cow_str(key)), es.take(k), then(b, Ev::MapEnd, t));
        lemma_one(st, ser_of(h), es.subrange(k, j), then(es.skip(j), Ev::MapEnd, t));
        lemma_one_struct(st, em2, es.skip(j), t);
        assert(one_members(then(b, Ev::MapEnd, t), false) == Some(t));
    }
}
