// ---- what the generated code of a derived Serialize rests on ----------------------
pub type DResult<T> = Result<T, Error>;
// A serializable value as such: ser_of(x) is x without its type.
#[verifier::external_body]
pub struct Ser { _p: () }
pub uninterp spec fn ser_of<T>(x: T) -> Ser;
pub uninterp spec fn said(s: Ser, r: Result<Chunk<'_>, Error>) -> bool;
pub uninterp spec fn ended(s: Ser, r: Result<(), Error>) -> bool;
pub uninterp spec fn stands(h: SerializeHandle<'_>, s: Ser) -> bool;
pub broadcast axiom fn ax_said<T: Serialize>(x: &T, r: Result<Chunk<'_>, Error>) ensures said(ser_of(*x), r) == #[trigger] x.says(r);
pub broadcast axiom fn ax_ended<T: Serialize>(x: &T, r: Result<(), Error>) ensures ended(ser_of(*x), r) == #[trigger] x.ends(r);
pub broadcast axiom fn ax_stands<T>(h: SerializeHandle<'_>, x: T) ensures #[trigger] refers(h, x) == stands(h, ser_of(x));
pub uninterp spec fn prim_says<T>(x: T, r: Result<Chunk<'_>, Error>) -> bool;
pub uninterp spec fn prim_ends<T>(x: T, r: Result<(), Error>) -> bool;
pub uninterp spec fn prim_optional<T>(x: T) -> bool;
pub uninterp spec fn prim_bytes<T>(x: Seq<T>) -> Option<Seq<u8>>;
pub broadcast group derive_std { ax_said, ax_ended, ax_stands }
impl<'a> SerializeHandle<'a> {
    #[verifier::external_body]
    pub fn is_optional(&self) -> (r: bool) ensures r == optional_of(*self) { unimplemented!() }
}
// a nested emitter: one call turned pre into post and returned r
pub uninterp spec fn em_gave<'a>(pre: StructEm<'a>, r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, post: StructEm<'a>) -> bool;
pub uninterp spec fn struct_of<E>(em: StructEm<'_>, e: E) -> bool;
/// The struct chunk whose emitter is e, boxed.
pub open spec fn struct_said<E>(r: Result<Chunk<'_>, Error>, e: E) -> bool { match r { Ok(Chunk::Struct(em)) => struct_of(em, e), _ => false } }
impl<'a> StructEm<'a> {
    #[verifier::external_body]
    pub fn vf_new<E: StructEmitter + 'a>(e: E) -> (r: StructEm<'a>) requires e.ready(), ensures struct_of(r, e), struct_said(Ok(Chunk::Struct(r)), e) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, state: &SerializerState) -> (r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>) ensures em_gave(*old(self), r, *final(self)) { unimplemented!() }
}
pub uninterp spec fn skips<T>(x: T) -> bool;
#[verifier::external_body]
pub fn skip_it<T>(x: &T) -> (r: bool) ensures r == skips(*x) { unimplemented!() }

// ---- the fields of a struct as a machine -------------------------------------------
pub enum Kind {
    /// A field with a name of its own; skip says whether it is left out.
    Plain { skip: bool, name: Seq<char>, val: Ser },
    /// A flattened field.
    Flat { skip: bool, val: Ser },
}
pub struct St<'a> { pub index: int, pub nested: Option<StructEm<'a>>, pub closed: bool }
/// e0 is the emitter of the flattened field that a is at.
pub open spec fn pulls(val: Ser, a: St, e0: StructEm) -> bool {
    if a.closed { said(val, Ok(Chunk::Struct(e0))) } else { a.nested == Some(e0) }
}
/// A step that hands nothing out.
pub open spec fn step(ks: Seq<Kind>, opt: bool, a: St, b: St) -> bool {
    0 <= a.index < ks.len() && match ks[a.index] {
        Kind::Plain { skip, name, val } => skip && b == (St { index: a.index + 1, nested: a.nested, closed: a.closed }),
        Kind::Flat { skip, val } => if skip { b == (St { index: a.index + 1, nested: a.nested, closed: a.closed }) } else {
            exists|e0: StructEm, r: Result<Option<(Cow<str>, SerializeHandle)>, Error>, e1: StructEm| #[trigger] em_gave(e0, r, e1) && pulls(val, a, e0) && b.nested == Some(e1) && (match r {
                Ok(None) => b.index == a.index + 1 && b.closed && ended(val, Ok(())),
                Ok(Some((k, h))) => opt && optional_of(h) && b.index == a.index && !b.closed,
                Err(e) => false,
            })
        },
    }
}
/// Serializing it gives something else than a struct.
pub open spec fn not_struct(val: Ser) -> bool { exists|c: Result<Chunk, Error>| #[trigger] said(val, c) && c is Ok && !(c->Ok_0 is Struct) }
/// A step that ends the call with r.
pub open spec fn out<'a>(ks: Seq<Kind>, opt: bool, a: St<'a>, r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, b: St<'a>) -> bool {
    if a.index >= ks.len() { r is Ok && r->Ok_0 is None && b == a } else {
        0 <= a.index && match ks[a.index] {
            Kind::Plain { skip, name, val } => !skip && r is Ok && r->Ok_0 is Some && cow_str(r->Ok_0->Some_0.0) == name && stands(r->Ok_0->Some_0.1, val)
                && b == (St { index: a.index + 1, nested: a.nested, closed: a.closed }),
            Kind::Flat { skip, val } => !skip && (
                (a.closed && r is Err && (said(val, Err(r->Err_0)) || (not_struct(val) && r->Err_0.kind_of() == ErrorKind::Unexpected)))
                || exists|e0: StructEm, r1: Result<Option<(Cow<str>, SerializeHandle)>, Error>, e1: StructEm| #[trigger] em_gave(e0, r1, e1) && pulls(val, a, e0) && (match r1 {
                    Ok(None) => r is Err && ended(val, Err(r->Err_0)),
                    Ok(Some((k, h))) => !(opt && optional_of(h)) && r is Ok && r->Ok_0 == Some((k, h)) && b == (St { index: a.index, nested: Some(e1), closed: false }),
                    Err(e) => r is Err && r->Err_0 == e,
                })),
        }
    }
}
pub open spec fn linked(ks: Seq<Kind>, opt: bool, tr: Seq<St>, i: int) -> bool { step(ks, opt, tr[i], tr[i + 1]) }
pub open spec fn runs(ks: Seq<Kind>, opt: bool, tr: Seq<St>) -> bool { forall|i: int| 0 <= i && i + 1 < tr.len() ==> #[trigger] linked(ks, opt, tr, i) }
/// One call of next: steps that hand nothing out, then one that ends it.
pub open spec fn call<'a>(ks: Seq<Kind>, opt: bool, a: St<'a>, r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, b: St<'a>) -> bool {
    exists|tr: Seq<St<'a>>| #[trigger] runs(ks, opt, tr) && tr.len() > 0 && tr[0] == a && out(ks, opt, tr.last(), r, b)
}
pub proof fn lemma_push<'a>(ks: Seq<Kind>, opt: bool, tr: Seq<St<'a>>, b: St<'a>)
    requires runs(ks, opt, tr), tr.len() > 0 ==> step(ks, opt, tr.last(), b),
    ensures runs(ks, opt, tr.push(b)),
{
    let t = tr.push(b);
    assert forall|i: int| 0 <= i && i + 1 < t.len() implies #[trigger] linked(ks, opt, t, i) by {
        if i + 1 < tr.len() { assert(linked(ks, opt, tr, i)); } 
    }
}

// ---- a whole struct ------------------------------------------------------------------
pub type Item<'a> = (Seq<char>, SerializeHandle<'a>);
/// Calls until the first None handed out outs.
pub open spec fn emits<'a>(ks: Seq<Kind>, opt: bool, a: St<'a>, outs: Seq<Item<'a>>, n: nat) -> bool
    decreases n
{
    exists|r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, b: St<'a>| #[trigger] call(ks, opt, a, r, b) && r is Ok && (match r->Ok_0 {
        None => outs.len() == 0,
        Some((k, h)) => n > 0 && outs.len() > 0 && outs[0] == (cow_str(k), h) && emits(ks, opt, b, outs.drop_first(), (n - 1) as nat),
    })
}
pub open spec fn got<'a>(e: StructEm<'a>, r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, e1: StructEm<'a>) -> bool { em_gave(e, r, e1) }
/// What a nested emitter contributes: everything it hands out, absent optionals
/// left out when opt.
pub open spec fn nested_all<'a>(opt: bool, e: StructEm<'a>, outs: Seq<Item<'a>>, n: nat) -> bool
    decreases n
{
    exists|r: Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error>, e1: StructEm<'a>| #[trigger] got(e, r, e1) && r is Ok && (match r->Ok_0 {
        None => outs.len() == 0,
        Some((k, h)) => n > 0 && (if opt && optional_of(h) { nested_all(opt, e1, outs, (n - 1) as nat) } else { outs.len() > 0 && outs[0] == (cow_str(k), h) && nested_all(opt, e1, outs.drop_first(), (n - 1) as nat) }),
    })
}
