// ---- the keys of a field or variant -----------------------------------------
pub trait Keyed {
    spec fn key(&self, c: ContainerAttrs) -> Seq<char>;
    spec fn also(&self) -> Seq<Seq<char>>;
    /// Flattened fields claim no key of their own.
    spec fn none(&self) -> bool;
}
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
#[verifier::external_body]
pub struct ContainerAttrs { _p: () }
#[verifier::external_body]
pub struct Node { _p: () }
#[verifier::external_body]
pub struct Tokens { _p: () }
#[verifier::external_body]
pub struct SynError { _p: () }
#[verifier::external_body]
pub fn vf_quote() -> Tokens { unimplemented!() }
#[verifier::external_body]
pub fn vf_spanned(n: &Node) -> SynError { unimplemented!() }
#[verifier::external_body]
pub struct FieldAttrs { _p: () }
#[verifier::external_body]
pub struct EnumVariantAttrs { _p: () }
// unit derive_attr proves what these return of the attributes
impl Keyed for FieldAttrs {
    uninterp spec fn key(&self, c: ContainerAttrs) -> Seq<char>;
    uninterp spec fn also(&self) -> Seq<Seq<char>>;
    uninterp spec fn none(&self) -> bool;
}
impl FieldAttrs {
    #[verifier::external_body]
    pub fn name(&self, c: &ContainerAttrs) -> (r: Cow<'_, str>) ensures cow_str(r) == self.key(*c) { unimplemented!() }
    #[verifier::external_body]
    pub fn aliases(&self) -> (r: &[String]) ensures texts(r@) == self.also() { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten(&self) -> (r: bool) ensures r == self.none() { unimplemented!() }
    #[verifier::external_body]
    pub fn field(&self) -> (r: &Node) { unimplemented!() }
}
impl Keyed for EnumVariantAttrs {
    uninterp spec fn key(&self, c: ContainerAttrs) -> Seq<char>;
    uninterp spec fn also(&self) -> Seq<Seq<char>>;
    open spec fn none(&self) -> bool { false }
}
impl EnumVariantAttrs {
    #[verifier::external_body]
    pub fn name(&self, c: &ContainerAttrs) -> (r: Cow<'_, str>) ensures cow_str(r) == self.key(*c) { unimplemented!() }
    #[verifier::external_body]
    pub fn aliases(&self) -> (r: &[String]) ensures texts(r@) == self.also() { unimplemented!() }
    #[verifier::external_body]
    pub fn variant(&self) -> (r: &Node) { unimplemented!() }
}
/// R-names: a set of strings: the texts that were put in, in order.
#[verifier::external_body]
pub struct VfNames { _p: () }
impl VfNames {
    pub uninterp spec fn log(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: VfNames) ensures r.log() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &str) -> (r: bool) ensures r == self.log().contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: String) -> (r: bool) ensures final(self).log() == old(self).log().push(x@), r == !old(self).log().contains(x@) { unimplemented!() }
}
/// Every key the first items claim, in order.
pub open spec fn own<X: Keyed>(x: X, c: ContainerAttrs) -> Seq<Seq<char>> { if x.none() { seq![] } else { seq![x.key(c)] + x.also() } }
pub open spec fn claimed<X: Keyed>(s: Seq<X>, c: ContainerAttrs) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { claimed(s.drop_last(), c) + own(s.last(), c) }
}
pub broadcast proof fn lemma_push(s: Seq<Seq<char>>, x: Seq<char>)
    ensures #[trigger] s.push(x).no_duplicates() <==> s.no_duplicates() && !s.contains(x)
{
    let t = s.push(x);
    if s.contains(x) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        assert(t[i] == t[s.len() as int]);
        assert(!t.no_duplicates());
    }
    if !s.no_duplicates() {
        let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && s[i] == s[j];
        assert(t[i] == t[j]);
        assert(!t.no_duplicates());
    }
    if s.no_duplicates() && !s.contains(x) {
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
            if i < s.len() { assert(s.contains(s[i])); }
            if j < s.len() { assert(s.contains(s[j])); }
        }
    }
}
/// The keys seen are the first j of what the item x claims, after those of the items before it.
pub open spec fn upto(base: Seq<Seq<char>>, name: Seq<char>, also: Seq<Seq<char>>, j: int) -> Seq<Seq<char>> { base.push(name) + also.take(j) }
pub broadcast proof fn lemma_upto(base: Seq<Seq<char>>, name: Seq<char>, also: Seq<Seq<char>>, j: int)
    requires 0 <= j < also.len()
    ensures #[trigger] upto(base, name, also, j).push(also[j]) == upto(base, name, also, j + 1)
{
    assert(upto(base, name, also, j).push(also[j]) =~= upto(base, name, also, j + 1));
}
pub broadcast proof fn lemma_ends(base: Seq<Seq<char>>, name: Seq<char>, also: Seq<Seq<char>>)
    ensures upto(base, name, also, 0) == base.push(name), #[trigger] upto(base, name, also, also.len() as int) == base + (seq![name] + also)
{
    assert(upto(base, name, also, 0) =~= base.push(name));
    assert(upto(base, name, also, also.len() as int) =~= base + (seq![name] + also));
}
pub proof fn lemma_own<X: Keyed>(s: Seq<X>, k: int, c: ContainerAttrs)
    requires 0 <= k < s.len()
    ensures claimed(s.take(k + 1), c) == claimed(s.take(k), c) + own(s[k], c)
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
}
pub broadcast group dups { lemma_push }
