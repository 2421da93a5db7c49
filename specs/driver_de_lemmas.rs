// ---- from single events to whole values ------------------------------------------
pub ghost enum Tree { Atom(Ev), Map(Trees), Seq(Trees) }
/// The children of a container; those of a map are keys and values by turns.
pub ghost enum Trees { Nil, Cons(Box<Tree>, Box<Trees>) }
pub open spec fn is_scalar(e: Ev) -> bool { !(e is MapStart) && !(e is MapEnd) && !(e is SeqStart) && !(e is SeqEnd) }
pub open spec fn tree_ok(t: Tree) -> bool
    decreases t
{
    match t { Tree::Atom(e) => is_scalar(e), Tree::Map(ts) => trees_ok(ts), Tree::Seq(ts) => trees_ok(ts) }
}
pub open spec fn trees_ok(ts: Trees) -> bool
    decreases ts
{
    match ts { Trees::Nil => true, Trees::Cons(t, r) => tree_ok(*t) && trees_ok(*r) }
}
/// The events of a value.
pub open spec fn tree_evs(t: Tree) -> Seq<Ev>
    decreases t
{
    match t {
        Tree::Atom(e) => seq![e],
        Tree::Map(ts) => seq![Ev::MapStart] + (trees_evs(ts) + seq![Ev::MapEnd]),
        Tree::Seq(ts) => seq![Ev::SeqStart] + (trees_evs(ts) + seq![Ev::SeqEnd]),
    }
}
pub open spec fn trees_evs(ts: Trees) -> Seq<Ev>
    decreases ts
{
    match ts { Trees::Nil => seq![], Trees::Cons(t, r) => tree_evs(*t) + trees_evs(*r) }
}
pub open spec fn flip(l: Layer) -> Layer { match l { Layer::Map(k) => Layer::Map(!k), Layer::Seq => Layer::Seq } }
pub open spec fn after(l: Layer, ts: Trees) -> Layer
    decreases ts
{
    match ts { Trees::Nil => l, Trees::Cons(_, r) => after(flip(l), *r) }
}
pub open spec fn ask(l: Layer) -> Call { match l { Layer::Map(true) => Call::NextKey, _ => Call::NextValue } }

pub open spec fn named(h: SinkHandle<'static>) -> bool { true }
/// What C18 promises: the sink c, and the sinks it hands out, receive exactly the
/// value t, each in order, and each is finished once, right after its last event;
/// st is what is open around c.
pub open spec fn fed(st: Open, c: SinkHandle<'static>, t: Tree, c2: SinkHandle<'static>) -> bool
    decreases t
{
    match t {
        Tree::Atom(e) => exists|c1: SinkHandle<'static>, r1: Result<(), Error>| #[trigger] did(st, c, Call::Atom(e), r1, c1) && r1 is Ok && did(st, c1, Call::Finish, Ok(()), c2),
        Tree::Map(ts) => exists|p0: SinkHandle<'static>, p1: SinkHandle<'static>| #[trigger] did(st, c, Call::Map, Ok(()), p0) && fed_all(st.push(desc_of(p0)), p0, Layer::Map(true), ts, p1) && #[trigger] did(st.push(desc_of(p0)), p1, Call::Finish, Ok(()), c2),
        Tree::Seq(ts) => exists|p0: SinkHandle<'static>, p1: SinkHandle<'static>| #[trigger] did(st, c, Call::Seq, Ok(()), p0) && fed_all(st.push(desc_of(p0)), p0, Layer::Seq, ts, p1) && #[trigger] did(st.push(desc_of(p0)), p1, Call::Finish, Ok(()), c2),
    }
}
pub open spec fn fed_all(st: Open, p: SinkHandle<'static>, l: Layer, ts: Trees, p2: SinkHandle<'static>) -> bool
    decreases ts
{
    match ts {
        Trees::Nil => p2 == p,
        Trees::Cons(t, r) => exists|c: SinkHandle<'static>, p1: SinkHandle<'static>, c2: SinkHandle<'static>|
            #[trigger] gave(st, p, ask(l), Ok(c), p1) && #[trigger] named(c2) && fed(st, c, *t, c2) && fed_all(st, p1, flip(l), *r, p2),
    }
}
/// Events delivered one after the other, all successfully.
pub open spec fn run(d: Dv, es: Seq<Ev>, d2: Dv) -> bool
    decreases es.len()
{
    if es.len() == 0 { d2 == d } else { exists|m: Dv| #[trigger] step(d, es[0], Ok(()), m) && run(m, es.drop_first(), d2) }
}
pub proof fn lemma_run_split(d: Dv, a: Seq<Ev>, b: Seq<Ev>, d2: Dv) -> (m: Dv)
    requires run(d, a + b, d2),
    ensures run(d, a, m), run(m, b, d2),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        d
    } else {
        let m1 = choose|m: Dv| #[trigger] step(d, (a + b)[0], Ok(()), m) && run(m, (a + b).drop_first(), d2);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        let m = lemma_run_split(m1, a.drop_first(), b, d2);
        assert(step(d, a[0], Ok(()), m1) && run(m1, a.drop_first(), m));
        m
    }
}
pub proof fn lemma_run_one(d: Dv, e: Ev, d2: Dv)
    requires run(d, seq![e], d2),
    ensures step(d, e, Ok(()), d2),
{
    let m = choose|m: Dv| #[trigger] step(d, seq![e][0], Ok(()), m) && run(m, seq![e].drop_first(), d2);
    assert(seq![e].drop_first().len() == 0);
}
/// C18 for one value of any shape and depth, anywhere in the stream.
pub proof fn lemma_value(d: Dv, t: Tree, d2: Dv)
    requires run(d, tree_evs(t), d2), tree_ok(t),
    ensures exists|c: SinkHandle<'static>, d1: Dv| #[trigger] opened(d, c, d1) && d2.stack =~= d1.stack && d2.descs =~= d.descs && d2.cur is Some && fed(d.descs, c, t, d2.cur->Some_0),
    decreases t, 0int,
{
    match t {
        Tree::Atom(e) => {
            lemma_run_one(d, e, d2);
            let (c, d1) = choose|c: SinkHandle<'static>, d1: Dv| #[trigger] opened(d, c, d1) && scalar(d1, c, e, Ok(()), d2);
            let (c1, r1) = choose|c1: SinkHandle<'static>, r1: Result<(), Error>| #[trigger] did(d.descs, c, Call::Atom(e), r1, c1) && if r1 is Err { Ok::<(), Error>(()) == r1 && d2.cur == Some(c1) } else { did(d.descs, c1, Call::Finish, Ok(()), d2.cur->Some_0) };
            assert(fed(d.descs, c, t, d2.cur->Some_0));
        }
        Tree::Map(ts) => { lemma_container(d, t, ts, Ev::MapStart, Ev::MapEnd, Layer::Map(true), d2); }
        Tree::Seq(ts) => { lemma_container(d, t, ts, Ev::SeqStart, Ev::SeqEnd, Layer::Seq, d2); }
    }
}
pub proof fn lemma_container(d: Dv, t: Tree, ts: Trees, s: Ev, e: Ev, l: Layer, d2: Dv)
    requires
        run(d, seq![s] + (trees_evs(ts) + seq![e]), d2), trees_ok(ts), 
        (t == Tree::Map(ts) && s == Ev::MapStart && e == Ev::MapEnd && l == Layer::Map(true)) || (t == Tree::Seq(ts) && s == Ev::SeqStart && e == Ev::SeqEnd && l == Layer::Seq),
    ensures exists|c: SinkHandle<'static>, d1: Dv| #[trigger] opened(d, c, d1) && d2.stack =~= d1.stack && d2.descs =~= d.descs && d2.cur is Some && fed(d.descs, c, t, d2.cur->Some_0),
    decreases ts, 1int,
{
    let m = lemma_run_split(d, seq![s], trees_evs(ts) + seq![e], d2);
    lemma_run_one(d, s, m);
    let n = lemma_run_split(m, trees_evs(ts), seq![e], d2);
    lemma_run_one(n, e, d2);
    let (c, d1) = choose|c: SinkHandle<'static>, d1: Dv| #[trigger] opened(d, c, d1) && started(d1, c, l, Ok(()), m);
    lemma_children(m, ts, n);
    assert(ended(n, Ok(()), d2));
    assert(fed_all(m.descs, m.stack.last().0, l, ts, n.stack.last().0));
    assert(did(n.descs, n.stack.last().0, Call::Finish, Ok(()), d2.cur->Some_0));
    assert(fed(d.descs, c, t, d2.cur->Some_0));
    assert(d2.stack =~= d1.stack);
}
pub proof fn lemma_children(d: Dv, ts: Trees, d2: Dv)
    requires run(d, trees_evs(ts), d2), trees_ok(ts), d.stack.len() > 0,
    ensures
        d2.stack.len() == d.stack.len(), d2.stack.drop_last() =~= d.stack.drop_last(), d2.descs =~= d.descs,
        d2.stack.last().1 == after(d.stack.last().1, ts),
        fed_all(d.descs, d.stack.last().0, d.stack.last().1, ts, d2.stack.last().0),
    decreases ts, 0int,
{
    match ts {
        Trees::Nil => {}
        Trees::Cons(t, r) => {
            let m = lemma_run_split(d, tree_evs(*t), trees_evs(*r), d2);
            lemma_value(d, *t, m);
            let (c, d1) = choose|c: SinkHandle<'static>, d1: Dv| #[trigger] opened(d, c, d1) && m.stack =~= d1.stack && m.descs =~= d.descs && m.cur is Some && fed(d.descs, c, *t, m.cur->Some_0);
            lemma_children(m, *r, d2);
            assert(gave(d.descs, d.stack.last().0, ask(d.stack.last().1), Ok(c), m.stack.last().0));
            assert(named(m.cur->Some_0));
            assert(m.stack.last().1 == flip(d.stack.last().1));
        }
    }
}
