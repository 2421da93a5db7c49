// ---- syn, as far as deser-derive/src/attr.rs reads it (assumed) ----------------------
pub mod syn {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct Ident { _p: () }
impl Ident {
    /// The identifier without r#.
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn unraw(&self) -> (r: Ident) ensures r.shown() == self.text() { unimplemented!() }
    pub uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.shown() { unimplemented!() }
}
#[verifier::external_body]
pub struct Attribute { _p: () }
#[verifier::external_body]
pub struct ExprPath { _p: () }
impl Clone for ExprPath {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Path { _p: () }
impl Path {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == (self.text() == s@) { unimplemented!() }
}
#[verifier::external_body]
pub struct LitStr { _p: () }
impl LitStr {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub struct MetaList { _p: () }
pub enum Lit { Str(LitStr), Int(u64), Other }
pub struct MetaNameValue { pub path: Path, pub lit: Lit }
pub enum Meta { Path(Path), List(MetaList), NameValue(MetaNameValue) }
pub enum NestedMeta { Meta(Meta), Lit(Lit) }
pub struct Field { pub attrs: Vec<Attribute>, pub ident: Option<Ident> }
pub struct Variant { pub attrs: Vec<Attribute>, pub ident: Ident }
pub struct DeriveInput { pub attrs: Vec<Attribute>, pub ident: Ident }
#[verifier::external_body]
pub struct Error { _p: () }
impl Error {
    #[verifier::external_body]
    pub fn new_spanned<T, U>(tokens: T, message: U) -> Error { unimplemented!() }
}
pub type Result<T> = std::result::Result<T, Error>;
}
}
/// The items of all #[deser(..)] attributes, in order.
pub uninterp spec fn metas(a: Seq<syn::Attribute>) -> Seq<syn::NestedMeta>;
#[verifier::external_body]
pub fn vf_metas(a: &Vec<syn::Attribute>) -> (r: Vec<syn::NestedMeta>) ensures r@ == metas(a@) { unimplemented!() }
/// The path a string literal spells, if any.
pub uninterp spec fn lit_path(l: syn::Lit) -> Option<syn::ExprPath>;
#[verifier::external_body]
pub fn vf_format() -> (r: String) { unimplemented!() }

// ---- std (assumed) ---------------------------------------------------------------------
pub open spec fn up(c: char) -> char { if 'a' <= c <= 'z' { ((c as u32 - 32) as u8) as char } else { c } }
pub open spec fn low(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn ups(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| up(c)) }
pub open spec fn lows(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| low(c)) }
pub uninterp spec fn unicode_upper(c: char) -> bool;
/// Uppercase_Letter of ASCII.
pub open spec fn is_up(c: char) -> bool { if (c as u32) < 128 { 'A' <= c <= 'Z' } else { unicode_upper(c) } }
pub assume_specification[ char::to_ascii_uppercase ](c: &char) -> (r: char) ensures r == up(*c);
pub assume_specification[ char::to_ascii_lowercase ](c: &char) -> (r: char) ensures r == low(*c);
pub assume_specification[ char::is_uppercase ](c: char) -> (r: bool) ensures r == is_up(c);
pub assume_specification[ <str>::to_ascii_uppercase ](s: &str) -> (r: String) ensures r@ == ups(s@);
pub assume_specification[ <str>::to_ascii_lowercase ](s: &str) -> (r: String) ensures r@ == lows(s@);
/// A str is its characters.
pub broadcast axiom fn ax_str(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub open spec fn swapped(s: Seq<char>, a: char, b: char) -> Seq<char> { s.map_values(|c: char| if c == a { b } else { c }) }
/// s.replace("a", "b") for one-character strings.
#[verifier::external_body]
pub fn vf_replace(s: &String, a: char, b: char) -> (r: String) ensures r@ == swapped(s@, a, b) { s.replace(a, &b.to_string()) }
/// s.char_indices(), collected: only the first character is at 0.
#[verifier::external_body]
pub fn vf_char_indices(s: &String) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).1 == s@[i] && (r@[i].0 == 0 <==> i == 0)
{ s.char_indices().collect() }
/// it.map(f).collect::<String>()
pub fn vf_map_collect<F: Fn((usize, char)) -> char>(v: Vec<(usize, char)>, f: F) -> (r: String)
    requires forall|x: (usize, char)| #[trigger] call_requires(f, (x,)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]),
{
    let mut o = String::new();
    for x in it: v
        invariant forall|x: (usize, char)| #[trigger] call_requires(f, (x,)), o@.len() == it.index@, it.index@ <= v@.len(),
            forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (v@[i],), #[trigger] o@[i]),
    { o.push(f(x)); }
    o
}

// ---- the rename rules --------------------------------------------------------------------
pub open spec fn rule_of(s: Seq<char>) -> Option<RenameAll> {
    if s == "lowercase"@ { Some(RenameAll::LowerCase) }
    else if s == "UPPERCASE"@ { Some(RenameAll::UpperCase) }
    else if s == "PascalCase"@ { Some(RenameAll::PascalCase) }
    else if s == "camelCase"@ { Some(RenameAll::CamelCase) }
    else if s == "snake_case"@ { Some(RenameAll::SnakeCase) }
    else if s == "SCREAMING_SNAKE_CASE"@ { Some(RenameAll::ScreamingSnakeCase) }
    else if s == "kebab-case"@ { Some(RenameAll::KebabCase) }
    else if s == "SCREAMING-KEBAB-CASE"@ { Some(RenameAll::ScreamingKebabCase) }
    else { None }
}
pub open spec fn lit_rule(l: syn::Lit) -> Option<RenameAll> { match l { syn::Lit::Str(s) => rule_of(s.text()), _ => None } }
pub open spec fn lit_str(l: syn::Lit) -> Option<Seq<char>> { match l { syn::Lit::Str(s) => Some(s.text()), _ => None } }
/// snake_case words joined, each capitalized except perhaps the first.
pub open spec fn joined(s: Seq<char>, first: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else {
        let p = joined(s.drop_last(), first);
        let c = s.last();
        if c == '_' { p } else if caps(s.drop_last(), first) { p.push(up(c)) } else { p.push(c) }
    }
}
/// Whether the next character starts a word that gets a capital.
pub open spec fn caps(s: Seq<char>, first: bool) -> bool { if s.len() == 0 { first } else { s.last() == '_' } }
pub open spec fn field_name(rule: Option<RenameAll>, s: Seq<char>) -> Seq<char> {
    match rule {
        None => s,
        Some(RenameAll::LowerCase) | Some(RenameAll::SnakeCase) => s,
        Some(RenameAll::UpperCase) | Some(RenameAll::ScreamingSnakeCase) => ups(s),
        Some(RenameAll::PascalCase) => joined(s, true),
        Some(RenameAll::CamelCase) => joined(s, false),
        Some(RenameAll::KebabCase) => swapped(s, '_', '-'),
        Some(RenameAll::ScreamingKebabCase) => ups(swapped(s, '_', '-')),
    }
}
/// PascalCase words separated and recased.
pub open spec fn split(s: Seq<char>, sep: char, upper: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else {
        let p = split(s.drop_last(), sep, upper);
        let c = if upper { up(s.last()) } else { low(s.last()) };
        if s.len() > 1 && is_up(s.last()) { p.push(sep).push(c) } else { p.push(c) }
    }
}
pub open spec fn variant_name(rule: Option<RenameAll>, s: Seq<char>) -> Seq<char> {
    match rule {
        None => s,
        Some(RenameAll::PascalCase) => s,
        Some(RenameAll::LowerCase) => lows(s),
        Some(RenameAll::UpperCase) => ups(s),
        Some(RenameAll::CamelCase) => Seq::new(s.len(), |i: int| if i == 0 { low(s[i]) } else { s[i] }),
        Some(RenameAll::SnakeCase) => split(s, '_', false),
        Some(RenameAll::ScreamingSnakeCase) => split(s, '_', true),
        Some(RenameAll::KebabCase) => split(s, '-', false),
        Some(RenameAll::ScreamingKebabCase) => split(s, '-', true),
    }
}

// ---- the attributes --------------------------------------------------------------------------
pub ghost enum Dv { Implicit, Explicit(syn::ExprPath) }
pub open spec fn dv(d: Option<TypeDefault>) -> Option<Dv> {
    match d { None => None, Some(TypeDefault::Implicit) => Some(Dv::Implicit), Some(TypeDefault::Explicit(p)) => Some(Dv::Explicit(p)) }
}
pub open spec fn sv(s: Option<String>) -> Option<Seq<char>> { match s { None => None, Some(x) => Some(x@) } }
pub open spec fn svs(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub ghost struct Av {
    pub rename: Option<Seq<char>>, pub aliases: Seq<Seq<char>>, pub default: Option<Dv>, pub flatten: bool, pub skip_if: Option<syn::ExprPath>,
    pub rename_all: Option<RenameAll>, pub skip_opt: bool,
}
pub ghost enum Kind { Container, Field, Variant }
pub open spec fn av0() -> Av { Av { rename: None, aliases: seq![], default: None, flatten: false, skip_if: None, rename_all: None, skip_opt: false } }
/// What one attribute item adds; None where it is an error.
pub open spec fn astep(k: Kind, v: Av, m: syn::NestedMeta) -> Option<Av> {
    match m {
        syn::NestedMeta::Meta(syn::Meta::NameValue(nv)) => {
            if nv.path.text() == "rename"@ { if v.rename is Some || lit_str(nv.lit) is None { None } else { Some(Av { rename: lit_str(nv.lit), ..v }) } }
            else if nv.path.text() == "rename_all"@ && k is Container { if v.rename_all is Some || lit_rule(nv.lit) is None { None } else { Some(Av { rename_all: lit_rule(nv.lit), ..v }) } }
            else if nv.path.text() == "alias"@ && !(k is Container) { if lit_str(nv.lit) is None { None } else { Some(Av { aliases: v.aliases.push(lit_str(nv.lit)->Some_0), ..v }) } }
            else if nv.path.text() == "default"@ && !(k is Variant) { if v.default is Some || lit_path(nv.lit) is None { None } else { Some(Av { default: Some(Dv::Explicit(lit_path(nv.lit)->Some_0)), ..v }) } }
            else if nv.path.text() == "skip_serializing_if"@ && k is Field { if v.skip_if is Some || lit_path(nv.lit) is None { None } else { Some(Av { skip_if: lit_path(nv.lit), ..v }) } }
            else { None }
        },
        syn::NestedMeta::Meta(syn::Meta::Path(p)) => {
            if p.text() == "default"@ && !(k is Variant) { if v.default is Some { None } else { Some(Av { default: Some(Dv::Implicit), ..v }) } }
            else if p.text() == "flatten"@ && k is Field { if v.flatten { None } else { Some(Av { flatten: true, ..v }) } }
            else if p.text() == "skip_serializing_optionals"@ && k is Container { if v.skip_opt { None } else { Some(Av { skip_opt: true, ..v }) } }
            else { None }
        },
        _ => None,
    }
}
pub open spec fn afold(k: Kind, ms: Seq<syn::NestedMeta>) -> Option<Av> decreases ms.len() {
    if ms.len() == 0 { Some(av0()) } else { match afold(k, ms.drop_last()) { None => None, Some(v) => astep(k, v, ms.last()) } }
}
pub proof fn lemma_afold(k: Kind, ms: Seq<syn::NestedMeta>, i: int)
    requires 0 <= i < ms.len(),
    ensures afold(k, ms.take(i + 1)) == (match afold(k, ms.take(i)) { None => None, Some(v) => astep(k, v, ms[i]) }),
        afold(k, ms.take(i + 1)) is None ==> afold(k, ms) is None,
{
    assert(ms.take(i + 1).drop_last() =~= ms.take(i));
    lemma_afold_none(k, ms, i + 1);
}
pub proof fn lemma_afold_none(k: Kind, ms: Seq<syn::NestedMeta>, i: int)
    requires 0 <= i <= ms.len(),
    ensures afold(k, ms.take(i)) is None ==> afold(k, ms) is None,
    decreases ms.len() - i,
{
    if i < ms.len() {
        assert(ms.take(i + 1).drop_last() =~= ms.take(i));
        lemma_afold_none(k, ms, i + 1);
    } else { assert(ms.take(i) =~= ms); }
}
pub open spec fn c_is(r: ContainerAttrs, v: Av) -> bool { sv(r.rename) == v.rename && r.rename_all == v.rename_all && dv(r.default) == v.default && r.skip_serializing_optionals == v.skip_opt }
pub open spec fn f_is(r: FieldAttrs, v: Av) -> bool { sv(r.rename) == v.rename && svs(r.aliases@) =~= v.aliases && dv(r.default) == v.default && r.flatten == v.flatten && r.skip_serializing_if == v.skip_if }
pub open spec fn v_is(r: EnumVariantAttrs, v: Av) -> bool { sv(r.rename) == v.rename && svs(r.aliases@) =~= v.aliases }
pub proof fn lemma_names()
    ensures
        "rename"@ != "rename_all"@ && "rename"@ != "alias"@ && "rename"@ != "default"@ && "rename"@ != "skip_serializing_if"@,
        "rename_all"@ != "alias"@ && "rename_all"@ != "default"@ && "rename_all"@ != "skip_serializing_if"@,
        "alias"@ != "default"@ && "alias"@ != "skip_serializing_if"@ && "default"@ != "skip_serializing_if"@,
        "default"@ != "flatten"@ && "default"@ != "skip_serializing_optionals"@ && "flatten"@ != "skip_serializing_optionals"@,
{
    reveal_strlit("rename"); reveal_strlit("rename_all"); reveal_strlit("alias"); reveal_strlit("default"); reveal_strlit("skip_serializing_if"); reveal_strlit("flatten"); reveal_strlit("skip_serializing_optionals");
    assert("rename"@.len() == 6 && "rename_all"@.len() == 10 && "alias"@.len() == 5 && "default"@.len() == 7 && "skip_serializing_if"@.len() == 19 && "flatten"@.len() == 7 && "skip_serializing_optionals"@.len() == 26);
    assert("default"@[0] == 'd' && "flatten"@[0] == 'f');
}
