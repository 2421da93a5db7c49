// ---- what was shown ----------------------------------------------------------------
/// A unit of output: a character, a scalar as core's Debug shows it, and the parts of
/// DebugMap and DebugList (separators and indentation are theirs).
pub enum Sh { Ch(char), Dbg(Ev), MapOpen, Key, Value, MapClose, SeqOpen, Item, SeqClose }
pub open spec fn chs(s: Seq<char>) -> Seq<Sh> { s.map_values(|c: char| Sh::Ch(c)) }

/// std::fmt::Formatter: its output so far and whether its writer has failed.
#[verifier::external_body]
pub struct Fmt { _p: () }
impl Fmt {
    pub uninterp spec fn log(&self) -> Seq<Sh>;
    pub uninterp spec fn failed(&self) -> bool;
}
pub struct FmtError;
#[verifier::external]
impl std::fmt::Debug for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
/// One write: either it is done or the writer has failed.
pub open spec fn wrote(a: Fmt, s: Seq<Sh>, ok: bool, b: Fmt) -> bool {
    if ok { !b.failed() && b.log() == a.log() + s } else { b.failed() }
}
/// fmt::Debug::fmt of a scalar
pub trait VfDebug { spec fn dbg(&self) -> Ev; }
impl VfDebug for () { open spec fn dbg(&self) -> Ev { Ev::Null } }
impl VfDebug for bool { open spec fn dbg(&self) -> Ev { Ev::Bool(*self) } }
impl VfDebug for char { open spec fn dbg(&self) -> Ev { Ev::Char(*self) } }
impl VfDebug for u64 { open spec fn dbg(&self) -> Ev { Ev::U64(*self) } }
impl VfDebug for i64 { open spec fn dbg(&self) -> Ev { Ev::I64(*self) } }
impl VfDebug for f64 { open spec fn dbg(&self) -> Ev { Ev::F64(*self) } }
impl VfDebug for str { open spec fn dbg(&self) -> Ev { Ev::Str(self@) } }
impl<'a> VfDebug for Cow<'a, str> { open spec fn dbg(&self) -> Ev { Ev::Str(cow_str(*self)) } }
#[verifier::external_body]
pub fn vf_dbg<T: VfDebug + ?Sized>(x: &T, f: &mut Fmt) -> (r: Result<(), FmtError>)
    requires !old(f).failed(),
    ensures wrote(*old(f), seq![Sh::Dbg(x.dbg())], r is Ok, *final(f)),
{ unimplemented!() }
/// Display, in write!("{}", x)
pub trait VfDisplay { spec fn shown(&self) -> Seq<char>; }
impl VfDisplay for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl VfDisplay for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VfDisplay for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VfDisplay + ?Sized> VfDisplay for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
/// {:02x} of a byte
pub struct VfHex(pub u8);
impl VfDisplay for VfHex { open spec fn shown(&self) -> Seq<char> { hex2(self.0) } }
pub open spec fn hex1(n: u8) -> char { if n < 10 { (0x30 + n) as u8 as char } else { (0x57 + n) as u8 as char } }
pub open spec fn hex2(b: u8) -> Seq<char> { seq![hex1(b / 16), hex1(b % 16)] }
/// write!(f, "..")
#[verifier::external_body]
pub fn vf_write(f: &mut Fmt, s: &str) -> (r: Result<(), FmtError>)
    requires !old(f).failed(),
    ensures wrote(*old(f), chs(s@), r is Ok, *final(f)),
{ unimplemented!() }
/// write!(f, "..{}..", x)
#[verifier::external_body]
pub fn vf_write1<T: VfDisplay>(f: &mut Fmt, a: &str, x: T, b: &str) -> (r: Result<(), FmtError>)
    requires !old(f).failed(),
    ensures wrote(*old(f), chs(a@ + x.shown() + b@), r is Ok, *final(f)),
{ unimplemented!() }
/// f.debug_struct(..).finish(), for an atom of a kind that does not exist
#[verifier::external_body]
pub fn vf_other(f: &mut Fmt) -> (r: Result<(), FmtError>) { unimplemented!() }
#[verifier::external_body]
pub fn vf_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vf_panic() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn vf_split_first<T>(s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { Some((x, y)) => s@.len() > 0 && *x == s@[0] && y@ == s@.skip(1), None => s@.len() == 0 },
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_tail<T>(s: &[T], n: usize) -> (r: &[T]) requires n <= s@.len() ensures r@ == s@.skip(n as int) { unimplemented!() }

// ---- core::fmt's builders (R-builder: the formatter they borrow is passed along) ----
#[verifier::external_body]
pub fn vf_mark(f: &mut Fmt, s: Ghost<Sh>) -> (r: bool)
    requires !old(f).failed(),
    ensures wrote(*old(f), seq![s@], r, *final(f)),
{ unimplemented!() }
/// A separator, the colon after a key.
#[verifier::external_body]
pub fn vf_separator(f: &mut Fmt) -> (r: bool)
    requires !old(f).failed(),
    ensures wrote(*old(f), seq![], r, *final(f)),
{ unimplemented!() }
pub struct VfMapB { pub ok: bool, pub has_key: bool }
pub struct VfListB { pub ok: bool }
pub fn vf_map(f: &mut Fmt) -> (r: VfMapB)
    requires !old(f).failed(),
    ensures wrote(*old(f), seq![Sh::MapOpen], r.ok, *final(f)), !r.has_key,
{ VfMapB { ok: vf_mark(f, Ghost(Sh::MapOpen)), has_key: false } }
pub fn vf_list(f: &mut Fmt) -> (r: VfListB)
    requires !old(f).failed(),
    ensures wrote(*old(f), seq![Sh::SeqOpen], r.ok, *final(f)),
{ VfListB { ok: vf_mark(f, Ghost(Sh::SeqOpen)) } }
/// What an entry of a builder does with what it is given.
pub open spec fn entered(a: Fmt, ok0: bool, h0: Helper<'_>, m: Sh, ok1: bool, h1: Helper<'_>, b: Fmt) -> bool {
    let sv = show_val(toks(h0.0@));
    &&& h1.0 == h0.0
    &&& ok1 ==> ok0 && !b.failed() && b.log() == a.log() + seq![m] + sv->Some_0.0 && h1.1 as int == h0.0@.len() - sv->Some_0.1.len()
    &&& !ok1 ==> b.failed() && (h1.1 == h0.1 || h1.1 as int == h0.0@.len() - sv->Some_0.1.len())
    &&& !ok0 ==> !ok1 && h1 == h0
}
pub fn vf_key(map: &mut VfMapB, f: &mut Fmt, inner: &mut Helper<'_>)
    requires old(map).ok ==> !old(map).has_key, helper_ok(*old(inner)), old(map).ok != old(f).failed(),
    ensures entered(*old(f), old(map).ok, *old(inner), Sh::Key, final(map).ok, *final(inner), *final(f)), final(map).ok ==> final(map).has_key,
    decreases old(inner).0@.len(), 2int,
{
    if map.ok {
        if !vf_mark(f, Ghost(Sh::Key)) { map.ok = false; }
        else {
            match inner.fmt(f) { Ok(_) => { if !vf_separator(f) { map.ok = false; } } Err(_) => { map.ok = false; } }
        }
        map.has_key = true;
    }
}
pub fn vf_value(map: &mut VfMapB, f: &mut Fmt, inner: &mut Helper<'_>)
    requires old(map).ok ==> old(map).has_key, helper_ok(*old(inner)), old(map).ok != old(f).failed(),
    ensures entered(*old(f), old(map).ok, *old(inner), Sh::Value, final(map).ok, *final(inner), *final(f)), final(map).ok ==> !final(map).has_key,
    decreases old(inner).0@.len(), 2int,
{
    if map.ok {
        if !vf_mark(f, Ghost(Sh::Value)) { map.ok = false; }
        else {
            match inner.fmt(f) { Ok(_) => { if !vf_separator(f) { map.ok = false; } } Err(_) => { map.ok = false; } }
        }
        map.has_key = false;
    }
}
pub fn vf_entry(list: &mut VfListB, f: &mut Fmt, inner: &mut Helper<'_>)
    requires helper_ok(*old(inner)), old(list).ok != old(f).failed(),
    ensures entered(*old(f), old(list).ok, *old(inner), Sh::Item, final(list).ok, *final(inner), *final(f)),
    decreases old(inner).0@.len(), 2int,
{
    if list.ok {
        if !vf_mark(f, Ghost(Sh::Item)) { list.ok = false; }
        else {
            match inner.fmt(f) { Ok(_) => { if !vf_separator(f) { list.ok = false; } } Err(_) => { list.ok = false; } }
        }
    }
}
pub open spec fn helper_ok(h: Helper<'_>) -> bool { h.1 == 0 && show_val(toks(h.0@)) is Some }
pub fn vf_map_end(map: VfMapB, f: &mut Fmt) -> (r: Result<(), FmtError>)
    requires map.ok ==> !map.has_key, map.ok != old(f).failed(),
    ensures r is Ok ==> map.ok, wrote(*old(f), seq![Sh::MapClose], r is Ok, *final(f)),
{ if map.ok && vf_mark(f, Ghost(Sh::MapClose)) { Ok(()) } else { Err(FmtError) } }
pub fn vf_list_end(list: VfListB, f: &mut Fmt) -> (r: Result<(), FmtError>)
    requires list.ok != old(f).failed(),
    ensures r is Ok ==> list.ok, wrote(*old(f), seq![Sh::SeqClose], r is Ok, *final(f)),
{ if list.ok && vf_mark(f, Ghost(Sh::SeqClose)) { Ok(()) } else { Err(FmtError) } }

// ---- what a value is shown as --------------------------------------------------------
pub type Tk = (Ev, Option<Seq<char>>);
pub open spec fn tok(x: (Event<'_>, Option<String>)) -> Tk { (ev(x.0), match x.1 { Some(s) => Some(s@), None => None }) }
pub open spec fn toks(s: Seq<(Event<'_>, Option<String>)>) -> Seq<Tk> { s.map_values(|x: (Event<'_>, Option<String>)| tok(x)) }
pub open spec fn named(n: Option<Seq<char>>) -> Seq<Sh> { match n { Some(s) => chs(s.push(' ')), None => seq![] } }
pub open spec fn seq_named(n: Option<Seq<char>>) -> Seq<Sh> { if n == Some("Vec"@) || n == Some("slice"@) { seq![] } else { named(n) } }
pub open spec fn byte_text(b: u8) -> Seq<char> {
    if b == 0x0a { seq!['\\', 'n'] } else if b == 0x0d { seq!['\\', 'r'] } else if b == 0x09 { seq!['\\', 't'] }
    else if b == 0x5c || b == 0x22 { seq!['\\', b as char] } else if b == 0 { seq!['\\', '0'] }
    else if 0x20 <= b < 0x7f { seq![b as char] } else { seq!['\\', 'x'] + hex2(b) }
}
pub open spec fn bytes_text(s: Seq<u8>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { bytes_text(s.drop_last()) + byte_text(s.last()) } }
/// The value at the start of the events: how it is shown, and the events after it.
pub open spec fn show_val(t: Seq<Tk>) -> Option<(Seq<Sh>, Seq<Tk>)>
    decreases t.len(), 0int,
{
    if t.len() == 0 { None } else {
        let rest = t.skip(1);
        match t[0].0 {
            Ev::MapStart => match show_members(rest, true) { Some((s, r)) => Some((named(t[0].1) + seq![Sh::MapOpen] + s, r)), None => None },
            Ev::SeqStart => match show_items(rest) { Some((s, r)) => Some((seq_named(t[0].1) + seq![Sh::SeqOpen] + s, r)), None => None },
            Ev::MapEnd | Ev::SeqEnd => None,
            Ev::Bytes(b) => Some((chs(seq!['b', '"'] + bytes_text(b) + seq!['"']), rest)),
            e => Some((seq![Sh::Dbg(e)], rest)),
        }
    }
}
pub open spec fn show_members(t: Seq<Tk>, key: bool) -> Option<(Seq<Sh>, Seq<Tk>)>
    decreases t.len(), 1int,
{
    if t.len() == 0 { None }
    else if t[0].0 is MapEnd { if key { Some((seq![Sh::MapClose], t.skip(1))) } else { None } }
    else { match show_val(t) {
        Some((s, r)) => if r.len() < t.len() { match show_members(r, !key) { Some((s2, r2)) => Some((seq![if key { Sh::Key } else { Sh::Value }] + s + s2, r2)), None => None } } else { None },
        None => None,
    } }
}
pub open spec fn show_items(t: Seq<Tk>) -> Option<(Seq<Sh>, Seq<Tk>)>
    decreases t.len(), 1int,
{
    if t.len() == 0 { None }
    else if t[0].0 is SeqEnd { Some((seq![Sh::SeqClose], t.skip(1))) }
    else { match show_val(t) {
        Some((s, r)) => if r.len() < t.len() { match show_items(r) { Some((s2, r2)) => Some((seq![Sh::Item] + s + s2, r2)), None => None } } else { None },
        None => None,
    } }
}
/// One step of each.
pub proof fn lemma_show_val(t: Seq<Tk>) ensures show_val(t) == ({
    if t.len() == 0 { None } else {
        let rest = t.skip(1);
        match t[0].0 {
            Ev::MapStart => match show_members(rest, true) { Some((s, r)) => Some((named(t[0].1) + seq![Sh::MapOpen] + s, r)), None => None },
            Ev::SeqStart => match show_items(rest) { Some((s, r)) => Some((seq_named(t[0].1) + seq![Sh::SeqOpen] + s, r)), None => None },
            Ev::MapEnd | Ev::SeqEnd => None,
            Ev::Bytes(b) => Some((chs(seq!['b', '"'] + bytes_text(b) + seq!['"']), rest)),
            e => Some((seq![Sh::Dbg(e)], rest)),
        }
    }
}) {}
pub proof fn lemma_show_members(t: Seq<Tk>, key: bool) ensures show_members(t, key) == ({
    if t.len() == 0 { None }
    else if t[0].0 is MapEnd { if key { Some((seq![Sh::MapClose], t.skip(1))) } else { None } }
    else { match show_val(t) {
        Some((s, r)) => if r.len() < t.len() { match show_members(r, !key) { Some((s2, r2)) => Some((seq![if key { Sh::Key } else { Sh::Value }] + s + s2, r2)), None => None } } else { None },
        None => None,
    } }
}) {}
pub proof fn lemma_show_items(t: Seq<Tk>) ensures show_items(t) == ({
    if t.len() == 0 { None }
    else if t[0].0 is SeqEnd { Some((seq![Sh::SeqClose], t.skip(1))) }
    else { match show_val(t) {
        Some((s, r)) => if r.len() < t.len() { match show_items(r) { Some((s2, r2)) => Some((seq![Sh::Item] + s + s2, r2)), None => None } } else { None },
        None => None,
    } }
}) {}
pub open spec fn byte_lit(b: u8) -> bool {
    &&& b == 0x0a ==> "\\n"@ == byte_text(b)
    &&& b == 0x0d ==> "\\r"@ == byte_text(b)
    &&& b == 0x09 ==> "\\t"@ == byte_text(b)
    &&& b == 0 ==> "\\0"@ == byte_text(b)
    &&& b == 0x5c || b == 0x22 ==> "\\"@ + seq![b as char] + ""@ == byte_text(b)
    &&& 0x20 <= b < 0x7f && b != 0x5c && b != 0x22 ==> ""@ + seq![b as char] + ""@ == byte_text(b)
    &&& (b < 0x20 || b >= 0x7f) && b != 0 && b != 9 && b != 10 && b != 13 ==> "\\x"@ + hex2(b) + ""@ == byte_text(b)
}
pub proof fn lemma_byte(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures byte_lit(s[i]),
{
    let b = s[i];
    reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t"); reveal_strlit("\\0"); reveal_strlit("\\"); reveal_strlit("\\x"); reveal_strlit("");
    let x = byte_text(b);
    if b == 0x0a { assert("\\n"@ =~= x); }
    if b == 0x0d { assert("\\r"@ =~= x); }
    if b == 0x09 { assert("\\t"@ =~= x); }
    if b == 0 { assert("\\0"@ =~= x); }
    if b == 0x5c || b == 0x22 { assert("\\"@ + seq![b as char] + ""@ =~= x); }
    if 0x20 <= b < 0x7f && b != 0x5c && b != 0x22 { assert(""@ + seq![b as char] + ""@ =~= x); }
    if (b < 0x20 || b >= 0x7f) && b != 0 && b != 9 && b != 10 && b != 13 { assert("\\x"@ + hex2(b) + ""@ =~= x); }
}
pub proof fn lemma_bytes_step(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures chs(seq!['b', '"'] + bytes_text(s.take(i))) + chs(byte_text(s[i])) == chs(seq!['b', '"'] + bytes_text(s.take(i + 1))),
{
    let tk = s.take(i + 1);
    assert(tk.drop_last() =~= s.take(i)); assert(tk.last() == s[i]);
    let a = seq!['b', '"'] + bytes_text(s.take(i));
    assert(seq!['b', '"'] + bytes_text(tk) =~= a + byte_text(s[i]));
    lemma_chs(a, byte_text(s[i]));
}
/// A str is its characters.
pub broadcast axiom fn ax_str(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub proof fn lemma_lits()
    ensures "b\""@ == seq!['b', '"'] + bytes_text(seq![]), "\""@ == seq!['"'],
        forall|s: Seq<char>| #[trigger] (""@ + s + " "@) == s.push(' '),
{
    reveal_strlit("b\""); reveal_strlit("\""); reveal_strlit(""); reveal_strlit(" ");
    assert("b\""@ =~= seq!['b', '"'] + bytes_text(seq![])); assert("\""@ =~= seq!['"']);
    assert forall|s: Seq<char>| #[trigger] (""@ + s + " "@) == s.push(' ') by { assert(""@ + s + " "@ =~= s.push(' ')); }
}
/// What is left is the end of what there was.
pub proof fn lemma_suffix(t: Seq<Tk>)
    ensures show_val(t) matches Some((_, r)) ==> r.len() < t.len() && r == t.skip(t.len() - r.len()),
    decreases t.len(), 0int,
{
    if t.len() > 0 {
        let rest = t.skip(1);
        match t[0].0 {
            Ev::MapStart => { lemma_suffix_m(rest, true); if let Some((_, r)) = show_members(rest, true) { assert(rest.skip(rest.len() - r.len()) =~= t.skip(t.len() - r.len())); } }
            Ev::SeqStart => { lemma_suffix_i(rest); if let Some((_, r)) = show_items(rest) { assert(rest.skip(rest.len() - r.len()) =~= t.skip(t.len() - r.len())); } }
            _ => {}
        }
    }
}
pub proof fn lemma_suffix_m(t: Seq<Tk>, key: bool)
    ensures show_members(t, key) matches Some((_, r)) ==> r.len() < t.len() && r == t.skip(t.len() - r.len()),
    decreases t.len(), 1int,
{
    if t.len() > 0 && !(t[0].0 is MapEnd) {
        lemma_suffix(t);
        if let Some((_, a)) = show_val(t) {
            lemma_suffix_m(a, !key);
            if let Some((_, r)) = show_members(a, !key) { assert(a.skip(a.len() - r.len()) =~= t.skip(t.len() - r.len())); }
        }
    }
}
pub proof fn lemma_suffix_i(t: Seq<Tk>)
    ensures show_items(t) matches Some((_, r)) ==> r.len() < t.len() && r == t.skip(t.len() - r.len()),
    decreases t.len(), 1int,
{
    if t.len() > 0 && !(t[0].0 is SeqEnd) {
        lemma_suffix(t);
        if let Some((_, a)) = show_val(t) {
            lemma_suffix_i(a);
            if let Some((_, r)) = show_items(a) { assert(a.skip(a.len() - r.len()) =~= t.skip(t.len() - r.len())); }
        }
    }
}
pub proof fn lemma_toks_skip(s: Seq<(Event<'_>, Option<String>)>, n: int)
    requires 0 <= n <= s.len(),
    ensures toks(s.skip(n)) == toks(s).skip(n),
{ assert(toks(s.skip(n)) =~= toks(s).skip(n)); }
pub proof fn lemma_chs(a: Seq<char>, b: Seq<char>)
    ensures chs(a + b) == chs(a) + chs(b),
{ assert(chs(a + b) =~= chs(a) + chs(b)); }

// ---- the driver (C17) ------------------------------------------------------------------
pub trait Descriptor { fn name(&self) -> (r: Option<&str>); }
#[verifier::external_body]
pub struct DynSer { _p: () }
#[verifier::external_body]
pub struct DynDesc { _p: () }
#[verifier::external_body]
pub struct SerializerState { _p: () }
#[verifier::external_body]
pub struct SerializeDriver<'a> { _p: &'a () }
pub uninterp spec fn desc_name(d: DynDesc) -> Option<Seq<char>>;
/// The events of a value and the names of their descriptors, if it serializes.
pub uninterp spec fn trace(x: DynSer) -> Option<Seq<Tk>>;
pub open spec fn evs(t: Seq<Tk>) -> Seq<Ev> { t.map_values(|x: Tk| x.0) }
/// They are one value (C17, lemma_one_value).
pub axiom fn ax_trace(x: DynSer) requires trace(x) is Some, ensures one_value(evs(trace(x)->0));
pub proof fn lemma_shown(t: Seq<Tk>)
    ensures one(evs(t)) matches Some(r) ==> (show_val(t) matches Some((_, q)) && q.len() < t.len() && q.len() == r.len() && evs(q) == r),
    decreases t.len(), 0int,
{
    if t.len() > 0 {
        let rest = t.skip(1);
        assert(evs(t).skip(1) =~= evs(rest));
        assert(evs(t)[0] == t[0].0);
        match t[0].0 { Ev::MapStart => { lemma_shown_m(rest, true); } Ev::SeqStart => { lemma_shown_i(rest); } _ => {} }
    }
}
pub proof fn lemma_shown_m(t: Seq<Tk>, key: bool)
    ensures one_members(evs(t), key) matches Some(r) ==> (show_members(t, key) matches Some((_, q)) && q.len() < t.len() && q.len() == r.len() && evs(q) == r),
    decreases t.len(), 1int,
{
    if t.len() > 0 {
        assert(evs(t).skip(1) =~= evs(t.skip(1)));
        assert(evs(t)[0] == t[0].0);
        if !(t[0].0 is MapEnd) { lemma_shown(t); if one(evs(t)) is Some { lemma_shown_m(show_val(t)->Some_0.1, !key); } }
    }
}
pub proof fn lemma_shown_i(t: Seq<Tk>)
    ensures one_items(evs(t)) matches Some(r) ==> (show_items(t) matches Some((_, q)) && q.len() < t.len() && q.len() == r.len() && evs(q) == r),
    decreases t.len(), 1int,
{
    if t.len() > 0 {
        assert(evs(t).skip(1) =~= evs(t.skip(1)));
        assert(evs(t)[0] == t[0].0);
        if !(t[0].0 is SeqEnd) { lemma_shown(t); if one(evs(t)) is Some { lemma_shown_i(show_val(t)->Some_0.1); } }
    }
}
impl DynDesc {
    #[verifier::external_body]
    pub fn name(&self) -> (r: Option<&str>) ensures match r { Some(s) => desc_name(*self) == Some(s@), None => desc_name(*self) is None } { unimplemented!() }
}
impl<'a> SerializeDriver<'a> {
    pub uninterp spec fn left(&self) -> Option<Seq<Tk>>;
    #[verifier::external_body]
    pub fn new(x: &'a DynSer) -> (r: SerializeDriver<'a>) ensures r.left() == trace(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<Option<(Event<'_>, &DynDesc, &SerializerState)>, Error>)
        ensures old(self).left() matches Some(l) ==> {
            &&& r is Ok
            &&& l.len() == 0 ==> r->Ok_0 is None && final(self).left() == old(self).left()
            &&& l.len() > 0 ==> (r->Ok_0 matches Some((e, d, _)) && ev(e) == l[0].0 && desc_name(*d) == l[0].1 && final(self).left() == Some(l.skip(1)))
        } { unimplemented!() }
}
impl<'a> Event<'a> {
    /// decided by C27
    #[verifier::external_body]
    pub fn to_static(&self) -> (r: Event<'static>) ensures ev(r) == ev(*self) { unimplemented!() }
}
