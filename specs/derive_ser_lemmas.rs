// ---- what consuming such an emitter gives ------------------------------------------
pub open spec fn cut(k: int, n: nat) -> bool { true }
pub open spec fn opened<'a>(val: Ser, e: StructEm<'a>) -> bool { said(val, Ok(Chunk::Struct(e))) }
/// outs is what the fields from i on contribute: each one that is not skipped exactly
/// once, in order, a flattened one by everything its own emitter hands out.
pub open spec fn fields<'a>(ks: Seq<Kind>, opt: bool, i: int, outs: Seq<Item<'a>>) -> bool
    decreases ks.len() - i, 1int
{
    if i < 0 || i >= ks.len() { outs.len() == 0 } else {
        match ks[i] {
            Kind::Plain { skip, name, val } => if skip { fields(ks, opt, i + 1, outs) } else { outs.len() > 0 && outs[0].0 == name && stands(outs[0].1, val) && fields(ks, opt, i + 1, outs.drop_first()) },
            Kind::Flat { skip, val } => if skip { fields(ks, opt, i + 1, outs) } else { exists|e: StructEm<'a>| #[trigger] opened(val, e) && inner(ks, opt, i, val, e, outs) },
        }
    }
}
/// outs is what is left of the flattened field i, whose emitter is e, and what follows it.
pub open spec fn inner<'a>(ks: Seq<Kind>, opt: bool, i: int, val: Ser, e: StructEm<'a>, outs: Seq<Item<'a>>) -> bool
    decreases ks.len() - i, 0int
{
    0 <= i < ks.len() && ended(val, Ok(())) && exists|k: int, n: nat| #[trigger] cut(k, n) && 0 <= k <= outs.len() && nested_all(opt, e, outs.take(k), n) && fields(ks, opt, i + 1, outs.skip(k))
}
pub open spec fn wf(ks: Seq<Kind>, a: St) -> bool { !a.closed ==> 0 <= a.index < ks.len() && a.nested is Some && ks[a.index] is Flat && !ks[a.index]->Flat_skip }
/// ... from the state a on.
pub open spec fn rest<'a>(ks: Seq<Kind>, opt: bool, a: St<'a>, outs: Seq<Item<'a>>) -> bool {
    if a.closed { fields(ks, opt, a.index, outs) } else { inner(ks, opt, a.index, ks[a.index]->Flat_val, a.nested->Some_0, outs) }
}
proof fn lemma_open<'a>(ks: Seq<Kind>, opt: bool, a: St<'a>, e0: StructEm<'a>, outs: Seq<Item<'a>>)
    requires 0 <= a.index < ks.len(), ks[a.index] is Flat, !ks[a.index]->Flat_skip, pulls(ks[a.index]->Flat_val, a, e0), inner(ks, opt, a.index, ks[a.index]->Flat_val, e0, outs),
    ensures rest(ks, opt, a, outs),
{
    if a.closed { assert(opened(ks[a.index]->Flat_val, e0)); }
}
proof fn lemma_step<'a>(ks: Seq<Kind>, opt: bool, a: St<'a>, b: St<'a>, outs: Seq<Item<'a>>)
    requires wf(ks, a), step(ks, opt, a, b),
    ensures wf(ks, b), rest(ks, opt, b, outs) ==> rest(ks, opt, a, outs),
{
    if ks[a.index] is Flat && !ks[a.index]->Flat_skip {
        let val = ks[a.index]->Flat_val;
        let (e0, r, e1) = choose|e0: StructEm<'a>, r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, e1: StructEm<'a>| #[trigger] em_gave(e0, r, e1) && pulls(val, a, e0) && b.nested == Some(e1) && (match r {
            Ok(None) => b.index == a.index + 1 && b.closed && ended(val, Ok(())),
            Ok(Some((k, h))) => opt && optional_of(h) && b.index == a.index && !b.closed,
            Err(e) => false,
        });
        assert(got(e0, r, e1));
        if rest(ks, opt, b, outs) {
            if r->Ok_0 is None {
                assert(nested_all(opt, e0, outs.take(0), 0));
                assert(outs.skip(0) =~= outs);
                assert(cut(0, 0));
            } else {
                let (k, n) = choose|k: int, n: nat| #[trigger] cut(k, n) && 0 <= k <= outs.len() && nested_all(opt, e1, outs.take(k), n) && fields(ks, opt, a.index + 1, outs.skip(k));
                assert(nested_all(opt, e0, outs.take(k), n + 1)) by { assert(((n + 1) - 1) as nat == n); }
                assert(cut(k, n + 1));
            }
            lemma_open(ks, opt, a, e0, outs);
        }
    }
}
proof fn lemma_out<'a>(ks: Seq<Kind>, opt: bool, a: St<'a>, r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, b: St<'a>, outs: Seq<Item<'a>>)
    requires wf(ks, a), a.index >= 0, out(ks, opt, a, r, b), r is Ok, r->Ok_0 is None ==> outs.len() == 0,
        r->Ok_0 is Some ==> outs.len() > 0 && outs[0] == (cow_str(r->Ok_0->Some_0.0), r->Ok_0->Some_0.1) && (wf(ks, b) && b.index >= 0 ==> rest(ks, opt, b, outs.drop_first())),
    ensures r->Ok_0 is Some ==> wf(ks, b) && b.index >= 0, rest(ks, opt, a, outs),
{
    if a.index < ks.len() && ks[a.index] is Flat {
        let val = ks[a.index]->Flat_val;
        let (e0, r1, e1) = choose|e0: StructEm<'a>, r1: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, e1: StructEm<'a>| #[trigger] em_gave(e0, r1, e1) && pulls(val, a, e0) && (match r1 {
            Ok(None) => r is Err && ended(val, Err(r->Err_0)),
            Ok(Some((k, h))) => !(opt && optional_of(h)) && r is Ok && r->Ok_0 == Some((k, h)) && b == (St { index: a.index, nested: Some(e1), closed: false }),
            Err(e) => r is Err && r->Err_0 == e,
        });
        assert(got(e0, r1, e1));
        let o = outs.drop_first();
        let (k, n) = choose|k: int, n: nat| #[trigger] cut(k, n) && 0 <= k <= o.len() && nested_all(opt, e1, o.take(k), n) && fields(ks, opt, a.index + 1, o.skip(k));
        assert(outs.take(k + 1).drop_first() =~= o.take(k));
        assert(outs.skip(k + 1) =~= o.skip(k));
        assert(nested_all(opt, e0, outs.take(k + 1), n + 1)) by { assert(((n + 1) - 1) as nat == n); }
        assert(cut(k + 1, n + 1));
        lemma_open(ks, opt, a, e0, outs);
    }
}
/// Down a trace from its state i to the last.
proof fn lemma_trace<'a>(ks: Seq<Kind>, opt: bool, tr: Seq<St<'a>>, i: int, outs: Seq<Item<'a>>)
    requires runs(ks, opt, tr), 0 <= i < tr.len(), wf(ks, tr[i]), tr[i].index >= 0,
    ensures wf(ks, tr.last()), tr.last().index >= 0, rest(ks, opt, tr.last(), outs) ==> rest(ks, opt, tr[i], outs),
    decreases tr.len() - i,
{
    if i + 1 < tr.len() {
        assert(linked(ks, opt, tr, i));
        lemma_step(ks, opt, tr[i], tr[i + 1], outs);
        lemma_trace(ks, opt, tr, i + 1, outs);
    }
}
/// The whole: what the calls of next hand out until the first None.
pub proof fn lemma_emits<'a>(ks: Seq<Kind>, opt: bool, a: St<'a>, outs: Seq<Item<'a>>, n: nat)
    requires wf(ks, a), a.index >= 0, emits(ks, opt, a, outs, n),
    ensures rest(ks, opt, a, outs),
    decreases n,
{
    let (r, b) = choose|r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, b: St<'a>| #[trigger] call(ks, opt, a, r, b) && r is Ok && (match r->Ok_0 {
        None => outs.len() == 0,
        Some((k, h)) => n > 0 && outs.len() > 0 && outs[0] == (cow_str(k), h) && emits(ks, opt, b, outs.drop_first(), (n - 1) as nat),
    });
    let tr = choose|tr: Seq<St<'a>>| #[trigger] runs(ks, opt, tr) && tr.len() > 0 && tr[0] == a && out(ks, opt, tr.last(), r, b);
    lemma_trace(ks, opt, tr, 0, outs);
    if r->Ok_0 is Some && wf(ks, b) && b.index >= 0 { lemma_emits(ks, opt, b, outs.drop_first(), (n - 1) as nat); }
    lemma_out(ks, opt, tr.last(), r, b, outs);
}
/// From the start, a derived struct contributes each field exactly once, in order.
pub proof fn lemma_struct<'a>(ks: Seq<Kind>, opt: bool, outs: Seq<Item<'a>>, n: nat)
    requires emits(ks, opt, St { index: 0, nested: None::<StructEm<'a>>, closed: true }, outs, n),
    ensures fields(ks, opt, 0, outs),
{
    lemma_emits(ks, opt, St { index: 0, nested: None::<StructEm<'a>>, closed: true }, outs, n);
}
