// ---- one call of an emitter, and any number of them ------------------------------
#[verifier::prophetic]
pub open spec fn seq_step<E: SeqEmitter + ?Sized>(pre: &E, r: Option<SerializeHandle<'_>>, post: &E) -> bool {
    if pre.left() == 0 { r is None } else {
        r is Some && pre.item(0, r->Some_0) && post.more() && post.left() == pre.left() - 1
        && forall|i: int, h: SerializeHandle<'_>| 0 <= i < post.left() ==> #[trigger] post.item(i, h) == pre.item(i + 1, h)
    }
}
#[verifier::prophetic]
pub open spec fn key_step<E: MapEmitter + ?Sized>(pre: &E, r: Option<SerializeHandle<'_>>, post: &E) -> bool {
    if pre.left() == 0 { r is None } else {
        r is Some && pre.key(0, r->Some_0) && post.more() && post.left() == pre.left() - 1
        && post.has_value() && (forall|h: SerializeHandle<'_>| #[trigger] post.now(h) ==> pre.value(0, h))
        && (forall|i: int, h: SerializeHandle<'_>| 0 <= i < post.left() ==> #[trigger] post.key(i, h) == pre.key(i + 1, h))
        && (forall|i: int, h: SerializeHandle<'_>| 0 <= i < post.left() ==> #[trigger] post.value(i, h) == pre.value(i + 1, h))
    }
}
#[verifier::prophetic]
pub open spec fn value_step<E: MapEmitter + ?Sized>(pre: &E, r: SerializeHandle<'_>, post: &E) -> bool {
    pre.now(r) && post.more() && post.left() == pre.left()
    && (forall|i: int, h: SerializeHandle<'_>| #[trigger] post.key(i, h) == pre.key(i, h))
    && (forall|i: int, h: SerializeHandle<'_>| #[trigger] post.value(i, h) == pre.value(i, h))
}
/// es[0], es[1], .. are the states of an emitter called until it gave None, hs what it gave before.
#[verifier::prophetic]
pub open spec fn seq_run<E: SeqEmitter>(es: Seq<E>, hs: Seq<SerializeHandle<'_>>) -> bool {
    &&& es.len() == hs.len() + 2
    &&& forall|i: int| #![trigger hs[i]] 0 <= i < hs.len() ==> seq_step(&es[i], Some(hs[i]), &es[i + 1])
    &&& seq_step(&es[hs.len() as int], None, &es[hs.len() as int + 1])
}
/// An emitter gives exactly left() items, the i-th in its place.
pub proof fn lemma_seq_run<E: SeqEmitter>(es: Seq<E>, hs: Seq<SerializeHandle<'_>>)
    requires seq_run(es, hs),
    ensures hs.len() == es[0].left(), forall|i: int| 0 <= i < hs.len() ==> es[0].item(i, #[trigger] hs[i]),
    decreases hs.len(),
{
    if hs.len() > 0 {
        let t = es.drop_first();
        let k = hs.drop_first();
        assert(seq_step(&es[0], Some(hs[0]), &es[1]));
        assert forall|i: int| #![trigger k[i]] 0 <= i < k.len() implies seq_step(&t[i], Some(k[i]), &t[i + 1]) by { assert(hs[i + 1] == k[i]); }
        assert(t[k.len() as int] == es[hs.len() as int] && t[k.len() as int + 1] == es[hs.len() as int + 1]);
        lemma_seq_run(t, k);
        assert forall|i: int| 0 <= i < hs.len() implies es[0].item(i, #[trigger] hs[i]) by {
            if i > 0 { assert(k[i - 1] == hs[i]); assert(t[0].item(i - 1, k[i - 1])); }
        }
    }
}
/// es[2i] gave the key ks[i] and became es[2i+1], which gave the value vs[i] and became es[2i+2].
#[verifier::prophetic]
pub open spec fn map_run<E: MapEmitter>(es: Seq<E>, ks: Seq<SerializeHandle<'_>>, vs: Seq<SerializeHandle<'_>>) -> bool {
    &&& vs.len() == ks.len() && es.len() == 2 * ks.len() + 2
    &&& forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() ==> key_step(&es[2 * i], Some(ks[i]), &es[2 * i + 1]) && value_step(&es[2 * i + 1], vs[i], &es[2 * i + 2])
    &&& key_step(&es[2 * ks.len() as int], None, &es[2 * ks.len() as int + 1])
}
/// A map emitter gives exactly left() keys, each followed by its own value.
pub proof fn lemma_map_run<E: MapEmitter>(es: Seq<E>, ks: Seq<SerializeHandle<'_>>, vs: Seq<SerializeHandle<'_>>)
    requires map_run(es, ks, vs),
    ensures ks.len() == es[0].left(), forall|i: int| 0 <= i < ks.len() ==> es[0].key(i, #[trigger] ks[i]) && es[0].value(i, vs[i]),
    decreases ks.len(),
{
    if ks.len() > 0 {
        let t = es.subrange(2, es.len() as int);
        let k = ks.drop_first();
        let v = vs.drop_first();
        assert(key_step(&es[0], Some(ks[0]), &es[1]) && value_step(&es[1], vs[0], &es[2])) by { let z = 0int; assert(2 * z == 0 && ks[z] == ks[0] && 2 * z + 1 == 1 && 2 * z + 2 == 2); assert(key_step(&es[2 * z], Some(ks[z]), &es[2 * z + 1]) && value_step(&es[2 * z + 1], vs[z], &es[2 * z + 2])); }
        assert forall|i: int| #![trigger k[i]] 0 <= i < k.len() implies key_step(&t[2 * i], Some(k[i]), &t[2 * i + 1]) && value_step(&t[2 * i + 1], v[i], &t[2 * i + 2]) by {
            assert(ks[i + 1] == k[i] && vs[i + 1] == v[i]);
            assert(t[2 * i] == es[2 * (i + 1)] && t[2 * i + 1] == es[2 * (i + 1) + 1] && t[2 * i + 2] == es[2 * (i + 1) + 2]);
        }
        assert(t[2 * k.len() as int] == es[2 * ks.len() as int] && t[2 * k.len() as int + 1] == es[2 * ks.len() as int + 1]);
        lemma_map_run(t, k, v);
        assert forall|i: int| 0 <= i < ks.len() implies es[0].key(i, #[trigger] ks[i]) && es[0].value(i, vs[i]) by {
            if i > 0 {
                assert(k[i - 1] == ks[i] && v[i - 1] == vs[i]);
                assert(es[2].key(i - 1, ks[i]) && es[2].value(i - 1, vs[i]));
                assert(es[1].key(i - 1, ks[i]) && es[1].value(i - 1, vs[i]));
            }
        }
    }
}
// what the contracts of the traits give a caller is exactly one step
fn vf_seq_client<'x, E: SeqEmitter>(e: &'x mut E, state: &SerializerState) -> (r: Result<Option<SerializeHandle<'x>>, Error>)
    requires old(e).more(),
    ensures r is Ok, seq_step(old(e), r->Ok_0, final(e)),
{ e.next(state) }
fn vf_key_client<'x, E: MapEmitter>(e: &'x mut E, state: &SerializerState) -> (r: Result<Option<SerializeHandle<'x>>, Error>)
    requires old(e).more(),
    ensures r is Ok, key_step(old(e), r->Ok_0, final(e)),
{ e.next_key(state) }
fn vf_value_client<'x, E: MapEmitter>(e: &'x mut E, state: &SerializerState) -> (r: Result<SerializeHandle<'x>, Error>)
    requires old(e).more(), old(e).has_value(),
    ensures r is Ok, value_step(old(e), r->Ok_0, final(e)),
{ e.next_value(state) }
