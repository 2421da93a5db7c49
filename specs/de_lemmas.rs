// ---- what the step contracts amount to over a whole sequence ------------------
// Between two calls a sink's state is what it collected and what is pending:
// next_value (next_key) moves the pending element into the collection, and the
// new child then leaves the next element pending.  X_after(xs) is the state after
// the children delivered xs, by exactly the step the contracts above state.
pub open spec fn vec_after<T>(xs: Seq<T>) -> (Seq<T>, Option<T>)
    decreases xs.len()
{
    if xs.len() == 0 { (Seq::<T>::empty(), None) } else { let p = vec_after(xs.drop_last()); (p.0 + opt_seq(p.1), Some(xs.last())) }
}
/// C11: finish leaves exactly xs, in order.
pub proof fn lemma_vec<T>(xs: Seq<T>)
    ensures vec_after(xs).0 + opt_seq(vec_after(xs).1) == xs,
    decreases xs.len(),
{
    if xs.len() > 0 { lemma_vec(xs.drop_last()); }
    assert(vec_after(xs).0 + opt_seq(vec_after(xs).1) =~= xs);
}

pub open spec fn set_put<T>(s: Set<T>, e: Option<T>) -> Set<T> { match e { Some(x) => s.insert(x), None => s } }
pub open spec fn set_after<T>(xs: Seq<T>) -> (Set<T>, Option<T>)
    decreases xs.len()
{
    if xs.len() == 0 { (Set::<T>::empty(), None) } else { let p = set_after(xs.drop_last()); (set_put(p.0, p.1), Some(xs.last())) }
}
/// C11: finish leaves exactly the set of the delivered elements.
pub proof fn lemma_set<T>(xs: Seq<T>, x: T)
    ensures set_put(set_after(xs).0, set_after(xs).1).contains(x) <==> xs.contains(x),
    decreases xs.len(),
{
    if xs.len() > 0 {
        let ys = xs.drop_last();
        lemma_set(ys, x);
        if ys.contains(x) { let i = choose|i: int| 0 <= i < ys.len() && ys[i] == x; assert(xs[i] == x); }
        if xs.contains(x) && x != xs.last() { let i = choose|i: int| 0 <= i < xs.len() && xs[i] == x; assert(ys[i] == x); }
    }
}

pub open spec fn map_put<K, V>(m: Map<K, V>, k: Option<K>, v: Option<V>) -> Map<K, V> {
    match (k, v) { (Some(k), Some(v)) => m.insert(k, v), _ => m }
}
pub open spec fn map_after<K, V>(es: Seq<(K, V)>) -> (Map<K, V>, Option<K>, Option<V>)
    decreases es.len()
{
    if es.len() == 0 { (Map::<K, V>::empty(), None, None) } else { let p = map_after(es.drop_last()); (map_put(p.0, p.1, p.2), Some(es.last().0), Some(es.last().1)) }
}
pub open spec fn map_result<K, V>(es: Seq<(K, V)>) -> Map<K, V> { map_put(map_after(es).0, map_after(es).1, map_after(es).2) }
/// The value delivered last for k.
pub open spec fn last_for<K, V>(es: Seq<(K, V)>, k: K) -> Option<V>
    decreases es.len()
{
    if es.len() == 0 { None } else if es.last().0 == k { Some(es.last().1) } else { last_for(es.drop_last(), k) }
}
/// C13: finish leaves exactly the delivered keys, each with the value delivered last.
pub proof fn lemma_map<K, V>(es: Seq<(K, V)>, k: K)
    ensures
        map_result(es).dom().contains(k) <==> last_for(es, k) is Some,
        last_for(es, k) is Some ==> map_result(es)[k] == last_for(es, k)->Some_0,
    decreases es.len(),
{
    if es.len() > 0 {
        lemma_map(es.drop_last(), k);
        assert(map_result(es) == map_result(es.drop_last()).insert(es.last().0, es.last().1));
    }
}

/// C12: an array buffer after the children delivered xs holds xs.
pub open spec fn buf_put<T>(b: Map<int, T>, i: int, e: Option<T>) -> Map<int, T> { match e { Some(x) => b.insert(i, x), None => b } }
pub open spec fn idx_put<T>(i: int, e: Option<T>) -> int { if e is Some { i + 1 } else { i } }
pub open spec fn buf_after<T>(b0: Map<int, T>, xs: Seq<T>) -> (Map<int, T>, int, Option<T>)
    decreases xs.len()
{
    if xs.len() == 0 { (b0, 0, None) } else { let p = buf_after(b0, xs.drop_last()); (buf_put(p.0, p.1, p.2), idx_put(p.1, p.2), Some(xs.last())) }
}
pub open spec fn buf_result<T>(b0: Map<int, T>, xs: Seq<T>) -> Map<int, T> { buf_put(buf_after(b0, xs).0, buf_after(b0, xs).1, buf_after(b0, xs).2) }
pub proof fn lemma_array<T>(b0: Map<int, T>, xs: Seq<T>)
    ensures
        idx_put(buf_after(b0, xs).1, buf_after(b0, xs).2) == xs.len(),
        forall|i: int| 0 <= i < xs.len() ==> #[trigger] buf_result(b0, xs).dom().contains(i),
        forall|i: int| 0 <= i < xs.len() ==> #[trigger] buf_result(b0, xs)[i] == xs[i],
    decreases xs.len(),
{
    if xs.len() > 0 {
        let ys = xs.drop_last();
        lemma_array(b0, ys);
        assert(buf_result(b0, xs) == buf_result(b0, ys).insert(ys.len() as int, xs.last()));
        assert forall|i: int| 0 <= i < xs.len() implies #[trigger] buf_result(b0, xs)[i] == xs[i] by { if i < ys.len() { assert(buf_result(b0, ys)[i] == ys[i]); } }
        assert forall|i: int| 0 <= i < xs.len() implies #[trigger] buf_result(b0, xs).dom().contains(i) by { if i < ys.len() { assert(buf_result(b0, ys).dom().contains(i)); } }
    }
}
