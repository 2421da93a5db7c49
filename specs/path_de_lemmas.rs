// ---- from single calls to a whole value -----------------------------------------------
pub ghost enum Tree { Atom(Ev), Map(Trees), Seq(Trees) }
/// The children of a container; those of a map are keys and values by turns.
pub ghost enum Trees { Nil, Cons(Box<Tree>, Box<Trees>) }
pub type Log = Seq<(Ev, Seq<Seg>)>;
pub open spec fn cut(k: int) -> bool { true }
pub open spec fn at(w: St) -> bool { true }
/// The scalars of t in order, each received at its location; t itself is at p.
pub open spec fn located(t: Tree, p: Seq<Seg>, es: Log) -> bool
    decreases t
{
    match t {
        Tree::Atom(e) => es =~= seq![(e, p)],
        Tree::Seq(ts) => items_at(ts, 0, p, es),
        Tree::Map(ts) => entries_at(ts, p, es),
    }
}
pub open spec fn items_at(ts: Trees, i: int, p: Seq<Seg>, es: Log) -> bool
    decreases ts
{
    match ts {
        Trees::Nil => es.len() == 0,
        Trees::Cons(t, r) => exists|k: int| #[trigger] cut(k) && 0 <= k <= es.len() && located(*t, p.push(Seg::Index(i)), es.take(k)) && items_at(*r, i + 1, p, es.skip(k)),
    }
}
pub open spec fn key_seg(t: Tree) -> Seg { match t { Tree::Atom(e) => match ev_seg(e) { Some(g) => g, None => Seg::Unknown }, _ => Seg::Unknown } }
pub open spec fn entries_at(ts: Trees, p: Seq<Seg>, es: Log) -> bool
    decreases ts
{
    match ts {
        Trees::Nil => es.len() == 0,
        Trees::Cons(k, r) => match *r {
            Trees::Nil => false,
            Trees::Cons(v, r2) => exists|i: int, j: int| #[trigger] cut(i) && #[trigger] cut(j) && 0 <= i <= j <= es.len()
                && located(*v, p.push(key_seg(*k)), es.subrange(i, j)) && entries_at(*r2, p, es.skip(j)),
        },
    }
}
// The calls the driver makes for the value t (C18), on the wrapper x; y is what is left of it.
pub open spec fn run(x: PathSink<'_>, t: Tree, a: St, b: St) -> bool
    decreases t
{
    exists|y: PathSink<'_>, m: St, z: PathSink<'_>, w: St, u: PathSink<'_>| #[trigger] opens(x, t, a, y, m) && run_in(y, t, m, z, w) && #[trigger] ps_finish(z, w, Ok(()), u, b)
}
pub open spec fn opens(x: PathSink<'_>, t: Tree, a: St, y: PathSink<'_>, m: St) -> bool {
    match t { Tree::Atom(e) => ps_atom(x, a, e, Ok(()), y, m), Tree::Map(_) => ps_open(x, a, true, Ok(()), y, m), Tree::Seq(_) => ps_open(x, a, false, Ok(()), y, m) }
}
pub open spec fn run_in(y: PathSink<'_>, t: Tree, m: St, z: PathSink<'_>, w: St) -> bool
    decreases t, 0int
{
    match t { Tree::Atom(_) => z == y && w == m, Tree::Map(ts) => run_entries(y, ts, m, z, w), Tree::Seq(ts) => run_items(y, ts, m, z, w) }
}
pub open spec fn run_items(x: PathSink<'_>, ts: Trees, a: St, z: PathSink<'_>, b: St) -> bool
    decreases ts, 0int
{
    match ts {
        Trees::Nil => z == x && a == b,
        Trees::Cons(t, r) => exists|h: SinkHandle<'_>, y: PathSink<'_>, m: St, w: St| #[trigger] ps_value(x, a, Ok(h), y, m) && #[trigger] at(w) && run(owned(h), *t, m, w) && run_items(y, *r, w, z, b),
    }
}
pub open spec fn run_entries(x: PathSink<'_>, ts: Trees, a: St, z: PathSink<'_>, b: St) -> bool
    decreases ts, 0int
{
    match ts {
        Trees::Nil => z == x && a == b,
        Trees::Cons(k, r) => exists|h: SinkHandle<'_>, y: PathSink<'_>, m: St, w: St| #[trigger] ps_key(x, a, Ok(h), y, m) && #[trigger] at(w) && run(owned(h), *k, m, w) && run_rest(y, *r, w, z, b),
    }
}
pub open spec fn run_rest(x: PathSink<'_>, ts: Trees, a: St, z: PathSink<'_>, b: St) -> bool
    decreases ts, 0int
{
    match ts {
        Trees::Nil => false,
        Trees::Cons(t, r) => exists|h: SinkHandle<'_>, y: PathSink<'_>, m: St, w: St| #[trigger] ps_value(x, a, Ok(h), y, m) && #[trigger] at(w) && run(owned(h), *t, m, w) && run_entries(y, *r, w, z, b),
    }
}
pub open spec fn ext(a: St, b: St) -> bool { a.log.len() <= b.log.len() && b.log.take(a.log.len() as int) == a.log }
pub open spec fn new_log(a: St, b: St) -> Log { b.log.skip(a.log.len() as int) }
pub proof fn lemma_ext(a: St, b: St, c: St)
    requires ext(a, b), ext(b, c),
    ensures ext(a, c), new_log(a, c).take(b.log.len() - a.log.len()) == new_log(a, b), new_log(a, c).skip(b.log.len() - a.log.len()) == new_log(b, c),
{
    assert(c.log.take(a.log.len() as int) =~= c.log.take(b.log.len() as int).take(a.log.len() as int));
    assert forall|i: int| 0 <= i < b.log.len() implies c.log[i] == b.log[i] by { assert(c.log.take(b.log.len() as int)[i] == c.log[i]); }
    assert(new_log(a, c).take(b.log.len() - a.log.len()) =~= new_log(a, b));
    assert(new_log(a, c).skip(b.log.len() - a.log.len()) =~= new_log(b, c));
}
pub proof fn lemma_same_log(a: St, b: St)
    requires a.log == b.log,
    ensures ext(a, b), new_log(a, b).len() == 0,
{ assert(b.log.take(a.log.len() as int) =~= a.log); }
/// A sink that has not begun: its own container is none, or the map it is a key of.
pub open spec fn begins(x: PathSink<'_>, a: St) -> bool {
    !x.pushed && settled(x, a.path) && !(x.container is Seq)
    && (x.container matches Container::Map(c) ==> a.cells.contains_key(c.id()) && a.cells[c.id()] is None && x.set_segment is None)
}
/// What stays: all cells, except that of the map a scalar is the key of.
pub open spec fn left(x: PathSink<'_>, t: Tree, a: St, b: St) -> bool {
    match (x.container, t) {
        (Container::Map(c), Tree::Atom(e)) => kept_but(a.cells, c.id(), b.cells) && b.cells.contains_key(c.id()) && b.cells[c.id()] == ev_seg(e),
        _ => kept(a.cells, b.cells),
    }
}
/// The value t is received at the location of x; the path is that location afterwards.
pub proof fn lemma_run(x: PathSink<'_>, t: Tree, a: St, b: St)
    requires run(x, t, a, b), begins(x, a),
    ensures b.path =~= here(x, a.path), ext(a, b), left(x, t, a, b), located(t, here(x, a.path), new_log(a, b)),
    decreases t
{
    let (y, m, z, w, u) = choose|y: PathSink<'_>, m: St, z: PathSink<'_>, w: St, u: PathSink<'_>| #[trigger] opens(x, t, a, y, m) && run_in(y, t, m, z, w) && #[trigger] ps_finish(z, w, Ok(()), u, b);
    let p = here(x, a.path);
    match t {
        Tree::Atom(e) => {
            assert(m.log.take(a.log.len() as int) =~= a.log);
            assert(new_log(a, b) =~= seq![(e, p)]);
        }
        Tree::Seq(ts) => {
            lemma_same_log(a, m);
            lemma_items(y, ts, 0, p, m, z, w);
            assert(w.path.drop_last() =~= p);
            assert(new_log(a, b) == new_log(m, w) && ext(a, b));
        }
        Tree::Map(ts) => {
            lemma_same_log(a, m);
            lemma_entries(y, ts, p, m, z, w);
            assert(w.path.drop_last() =~= p);
            assert(new_log(a, b) == new_log(m, w) && ext(a, b));
        }
    }
}
/// The container's own slot at the end of the path.
pub open spec fn inside(a: St, p: Seq<Seg>) -> bool { a.path.len() > 0 && a.path.drop_last() =~= p }
pub proof fn lemma_items(x: PathSink<'_>, ts: Trees, i: int, p: Seq<Seg>, a: St, z: PathSink<'_>, b: St)
    requires run_items(x, ts, a, z, b), x.container is Seq, x.container->Seq_0 == i, x.pushed, inside(a, p),
    ensures inside(b, p), z.pushed, ext(a, b), kept(a.cells, b.cells), items_at(ts, i, p, new_log(a, b)),
    decreases ts
{
    match ts {
        Trees::Nil => { lemma_same_log(a, b); }
        Trees::Cons(t, r) => {
            let (h, y, m, w) = choose|h: SinkHandle<'_>, y: PathSink<'_>, m: St, w: St| #[trigger] ps_value(x, a, Ok(h), y, m) && #[trigger] at(w) && run(owned(h), *t, m, w) && run_items(y, *r, w, z, b);
            let c: PathSink<'_> = owned(h);
            assert(here(c, m.path) =~= p.push(Seg::Index(i)));
            lemma_run(c, *t, m, w);
            assert(w.path.drop_last() =~= p);
            lemma_items(y, *r, i + 1, p, w, z, b);
            lemma_ext(m, w, b);
            assert(new_log(a, b) == new_log(m, b) && ext(a, b));
            assert(cut(w.log.len() - m.log.len()));
        }
    }
}
pub proof fn lemma_entries(x: PathSink<'_>, ts: Trees, p: Seq<Seg>, a: St, z: PathSink<'_>, b: St)
    requires run_entries(x, ts, a, z, b), x.container is Map, a.cells.contains_key(x.container->Map_0.id()), a.cells[x.container->Map_0.id()] is None, x.pushed, inside(a, p),
    ensures inside(b, p), z.pushed, ext(a, b), kept(a.cells, b.cells), entries_at(ts, p, new_log(a, b)),
    decreases ts
{
    match ts {
        Trees::Nil => { lemma_same_log(a, b); }
        Trees::Cons(k, r) => {
            let id = x.container->Map_0.id();
            let (h, y, m, w) = choose|h: SinkHandle<'_>, y: PathSink<'_>, m: St, w: St| #[trigger] ps_key(x, a, Ok(h), y, m) && #[trigger] at(w) && run(owned(h), *k, m, w) && run_rest(y, *r, w, z, b);
            let c: PathSink<'_> = owned(h);
            assert(m.cells.contains_key(id));
            lemma_run(c, *k, m, w);
            assert(w.cells.contains_key(id));
            assert(key_seg(*k) == (match w.cells[id] { Some(g) => g, None => Seg::Unknown }));
            match *r {
                Trees::Nil => {}
                Trees::Cons(v, r2) => {
                    let (h2, y2, m2, w2) = choose|h: SinkHandle<'_>, y2: PathSink<'_>, m: St, w2: St| #[trigger] ps_value(y, w, Ok(h), y2, m) && #[trigger] at(w2) && run(owned(h), *v, m, w2) && run_entries(y2, *r2, w2, z, b);
                    let d: PathSink<'_> = owned(h2);
                    assert(m2.cells.contains_key(id));
                    assert(here(d, m2.path) =~= p.push(key_seg(*k)));
                    lemma_run(d, *v, m2, w2);
                    assert(w2.cells.contains_key(id));
                    assert(w2.path.drop_last() =~= p);
                    lemma_entries(y2, *r2, p, w2, z, b);
                    lemma_ext(m, w, w2);
                    lemma_ext(m, w2, b);
                    let es = new_log(a, b);
                    assert(es == new_log(m, b) && ext(a, b));
                    let i = w.log.len() - m.log.len();
                    let j = w2.log.len() - m.log.len();
                    assert(cut(i) && cut(j));
                    assert(es.subrange(i, j) =~= es.take(j).skip(i));
                    assert(es.subrange(i, j) =~= new_log(m2, w2));
                    assert(kept(a.cells, b.cells));
                }
            }
        }
    }
}
/// C22: a wrapped sink receives every scalar at its location and leaves the path as it was.
pub proof fn lemma_top(x: PathSink<'_>, t: Tree, a: St, b: St)
    requires run(x, t, a, b), x.container is None && x.set_segment is None && !x.pushed, a.path.len() == 0,
    ensures b.path.len() == 0, located(t, Seq::empty(), new_log(a, b)),
{
    assert(a.path =~= Seq::empty());
    lemma_run(x, t, a, b);
}
