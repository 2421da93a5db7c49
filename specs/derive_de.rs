pub type DResult<T> = Result<T, Error>;
// ---- what the generated code of a derived Deserialize rests on --------------------
// `match s { "x" => .. }` compares strings by their characters.
pub broadcast axiom fn ax_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
/// deser::__derive::new_missing_field_error(name)
pub uninterp spec fn names_missing(e: Error, name: Seq<char>) -> bool;
#[verifier::external_body]
pub fn new_missing_field_error(name: &str) -> (r: Error) ensures r.kind_of() == ErrorKind::MissingField, names_missing(r, name@) { unimplemented!() }
// field types: their own targets are under contract in the unit de_impls
pub uninterp spec fn target_feeds<T>(h: SinkHandle<'_>, init: Option<T>, fin: Option<T>) -> bool;
#[verifier::external_body]
pub fn vf_as_str<'a>(c: &'a Cow<'_, str>) -> (r: &'a str) ensures r@ == cow_str(*c) { unimplemented!() }
#[verifier::external_body]
pub fn vf_any(x: &[bool]) -> (r: bool) ensures r == (exists|i: int| 0 <= i < x@.len() && x@[i]) { x.iter().any(|x| *x) }
// the functions the attributes name
pub uninterp spec fn from_dflt_u32() -> u32;
#[verifier::external_body]
pub fn dflt_u32() -> (r: u32) ensures r == from_dflt_u32() { unimplemented!() }
pub uninterp spec fn from_none_of<T>() -> Option<T>;
#[verifier::external_body]
pub fn none_of<T>() -> (r: Option<T>) ensures r == from_none_of::<T>() { unimplemented!() }
// the default of a type is the one value its Default impl returns
pub uninterp spec fn the_default<T>() -> T;
pub uninterp spec fn made_default<T>(x: T) -> bool;

// ---- a whole map ------------------------------------------------------------------
/// A field after the entries es: each entry whose key is one of the field's own
/// delivers its value (the routes_* contracts), every other entry leaves it alone.
pub open spec fn field_after<T>(init: Option<T>, mine: spec_fn(Seq<char>) -> bool, es: Seq<(Seq<char>, T)>) -> Option<T>
    decreases es.len()
{
    if es.len() == 0 { init } else if mine(es.last().0) { Some(es.last().1) } else { field_after(init, mine, es.drop_last()) }
}
/// C24: it is the value of the last entry with one of its keys, wherever that
/// stands, and its initial value when there is none.
pub proof fn lemma_field<T>(init: Option<T>, mine: spec_fn(Seq<char>) -> bool, es: Seq<(Seq<char>, T)>)
    ensures
        (forall|i: int| 0 <= i < es.len() ==> !mine((#[trigger] es[i]).0)) ==> field_after(init, mine, es) == init,
        forall|i: int| 0 <= i < es.len() && mine((#[trigger] es[i]).0) && (forall|j: int| i < j < es.len() ==> !mine((#[trigger] es[j]).0)) ==> field_after(init, mine, es) == Some(es[i].1),
    decreases es.len(),
{
    if es.len() > 0 {
        let ys = es.drop_last();
        lemma_field(init, mine, ys);
        assert forall|i: int| 0 <= i < es.len() && mine((#[trigger] es[i]).0) && (forall|j: int| i < j < es.len() ==> !mine((#[trigger] es[j]).0)) implies field_after(init, mine, es) == Some(es[i].1) by {
            if i < ys.len() {
                assert(!mine(es[es.len() - 1].0));
                assert(ys[i] == es[i]);
                assert forall|j: int| i < j < ys.len() implies !mine((#[trigger] ys[j]).0) by { assert(ys[j] == es[j]); }
            }
        }
        if forall|i: int| 0 <= i < es.len() ==> !mine((#[trigger] es[i]).0) {
            assert(!mine(es[es.len() - 1].0));
            assert forall|i: int| 0 <= i < ys.len() implies !mine((#[trigger] ys[i]).0) by { assert(ys[i] == es[i]); }
        }
    }
}
/// C24: entries with distinct keys may come in any order.
pub proof fn lemma_order<T>(init: Option<T>, mine: spec_fn(Seq<char>) -> bool, es: Seq<(Seq<char>, T)>, fs: Seq<(Seq<char>, T)>)
    requires
        es.to_multiset() == fs.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < es.len() && mine((#[trigger] es[i]).0) ==> !mine((#[trigger] es[j]).0),
        forall|i: int, j: int| 0 <= i < j < fs.len() && mine((#[trigger] fs[i]).0) ==> !mine((#[trigger] fs[j]).0),
    ensures field_after(init, mine, es) == field_after(init, mine, fs),
{
    lemma_field(init, mine, es);
    lemma_field(init, mine, fs);
    es.to_multiset_ensures();
    fs.to_multiset_ensures();
    if exists|i: int| 0 <= i < es.len() && mine((#[trigger] es[i]).0) {
        let i = choose|i: int| 0 <= i < es.len() && mine((#[trigger] es[i]).0);
        assert(es.contains(es[i]));
        assert(fs.to_multiset().contains(es[i]));
        assert(fs.contains(es[i]));
        let j = choose|j: int| 0 <= j < fs.len() && fs[j] == es[i];
        assert(mine(fs[j].0));
    } else {
        assert forall|j: int| 0 <= j < fs.len() implies !mine((#[trigger] fs[j]).0) by {
            assert(fs.contains(fs[j]));
            assert(es.to_multiset().contains(fs[j]));
            assert(es.contains(fs[j]));
            let i = choose|i: int| 0 <= i < es.len() && es[i] == fs[j];
            assert(!mine(es[i].0));
        }
    }
}
