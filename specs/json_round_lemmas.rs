// ---------------------------------------------------------------------------
// The two JSON specifications are inverse: what `srun` (the serializer's
// contract) writes for a value is what `doc` (the parser's contract) reads
// back.  Nothing is assumed here beyond vstd's UTF-8 library, except that the
// text of a finite double is a number token (ax_float_text).
// ---------------------------------------------------------------------------
/// A value JSON can express.
pub enum Jv {
    Null,
    Bool(bool),
    U64(u64),
    I64(i64),
    F64(f64),
    Str(Seq<char>),
    Char(char),
    Seq(Jl),
    Map(Jm),
}
pub enum Jl { Nil, Cons(Box<Jv>, Box<Jl>) }
pub enum Jk { Str(Seq<char>), Char(char) }
pub enum Jm { Nil, Cons(Jk, Box<Jv>, Box<Jm>) }

/// What the text of a finite double reads as: core's (or ryu's) formatting is
/// outside the contracts, that its text is a number token is assumed.
pub uninterp spec fn float_back(x: f64) -> Ev;
pub axiom fn ax_float_text(x: f64, pre: Seq<u8>, post: Seq<u8>)
    requires is_fin(x), post.len() == 0 || !is_digit(post[0]) && post[0] != 0x2e && !is_exp(post[0]),
    ensures
        vstd::utf8::encode_utf8(float_text(x)).len() > 0,
        lex(pre + vstd::utf8::encode_utf8(float_text(x)) + post, pre.len() as int) == Some((Tok::Scalar(float_back(x)), (pre.len() + vstd::utf8::encode_utf8(float_text(x)).len()) as int));
/// What a scalar is after it was written and read again: chars are strings of
/// one character, integers that are not negative are unsigned.
pub open spec fn back(e: Ev, read: bool) -> Ev {
    if !read { e } else {
        match e {
            Ev::Char(c) => Ev::Str(seq![c]),
            Ev::I64(x) => if x >= 0 { Ev::U64(x as u64) } else { e },
            Ev::F64(x) => if is_fin(x) { float_back(x) } else { Ev::Null },
            _ => e,
        }
    }
}
pub open spec fn key_ev(k: Jk) -> Ev { match k { Jk::Str(s) => Ev::Str(s), Jk::Char(c) => Ev::Char(c) } }
pub open spec fn leaf(v: Jv) -> Ev {
    match v { Jv::Null => Ev::Null, Jv::Bool(b) => Ev::Bool(b), Jv::U64(x) => Ev::U64(x), Jv::I64(x) => Ev::I64(x), Jv::F64(x) => Ev::F64(x), Jv::Str(s) => Ev::Str(s), Jv::Char(c) => Ev::Char(c), _ => Ev::Null }
}

/// The events of a value after the events `acc`, as serialized or (`read`) as read back.
pub open spec fn evs(v: Jv, acc: Seq<Ev>, read: bool) -> Seq<Ev>
    decreases v,
{
    match v {
        Jv::Seq(l) => evs_l(l, acc.push(Ev::SeqStart), read),
        Jv::Map(l) => evs_m(l, acc.push(Ev::MapStart), read),
        _ => acc.push(back(leaf(v), read)),
    }
}
pub open spec fn evs_l(l: Jl, acc: Seq<Ev>, read: bool) -> Seq<Ev>
    decreases l,
{
    match l { Jl::Nil => acc.push(Ev::SeqEnd), Jl::Cons(v, r) => evs_l(*r, evs(*v, acc, read), read) }
}
pub open spec fn evs_m(l: Jm, acc: Seq<Ev>, read: bool) -> Seq<Ev>
    decreases l,
{
    match l { Jm::Nil => acc.push(Ev::MapEnd), Jm::Cons(k, v, r) => evs_m(*r, evs(*v, acc.push(back(key_ev(k), read)), read), read) }
}

/// The text of a value.
pub open spec fn w(v: Jv) -> Seq<char>
    decreases v,
{
    match v {
        Jv::Seq(l) => seq!['['] + wl(l, true),
        Jv::Map(l) => seq!['{'] + wm(l, true),
        _ => scalar_text(leaf(v))->0,
    }
}
pub open spec fn comma(first: bool) -> Seq<char> { if first { seq![] } else { seq![','] } }
/// The rest of an array or object, its closing bracket included.
pub open spec fn wl(l: Jl, first: bool) -> Seq<char>
    decreases l,
{
    match l { Jl::Nil => seq![']'], Jl::Cons(v, r) => comma(first) + w(*v) + wl(*r, false) }
}
pub open spec fn wm(l: Jm, first: bool) -> Seq<char>
    decreases l,
{
    match l { Jm::Nil => seq!['}'], Jm::Cons(k, v, r) => comma(first) + (key_text(key_ev(k))->0) + seq![':'] + w(*v) + wm(*r, false) }
}

pub mod rl {
use super::*;
use vstd::utf8::*;

// --- the writer ----------------------------------------------------------------
pub proof fn lemma_srun_push(t: Seq<Ev>, e: Ev)
    ensures srun(t.push(e)) == match srun(t) { Some(s) => sstep(s, e), None => None },
{ assert(t.push(e).drop_last() =~= t); }

pub proof fn lemma_write(v: Jv, acc: Seq<Ev>, st: Seq<ContainerState>, out: Seq<char>)
    requires srun(acc) == Some(mk(st, out)), !at_key(st),
    ensures srun(evs(v, acc, false)) == Some(mk(bump_top(st), out + separator(st) + w(v))),
    decreases v,
{
    match v {
        Jv::Seq(l) => {
            lemma_srun_push(acc, Ev::SeqStart);
            let o = (out + separator(st)).push('[');
            let b = bump_top(st);
            lemma_write_l(l, acc.push(Ev::SeqStart), b, true, o);
            assert(o + wl(l, true) =~= out + separator(st) + w(v));
        }
        Jv::Map(l) => {
            lemma_srun_push(acc, Ev::MapStart);
            let o = (out + separator(st)).push('{');
            let b = bump_top(st);
            lemma_write_m(l, acc.push(Ev::MapStart), b, true, o);
            assert(o + wm(l, true) =~= out + separator(st) + w(v));
        }
        _ => { lemma_srun_push(acc, leaf(v)); }
    }
}
pub proof fn lemma_write_l(l: Jl, acc: Seq<Ev>, st: Seq<ContainerState>, first: bool, out: Seq<char>)
    requires srun(acc) == Some(mk(st.push(ContainerState::Seq { first }), out)),
    ensures srun(evs_l(l, acc, false)) == Some(mk(st, out + wl(l, first))),
    decreases l,
{
    let top = st.push(ContainerState::Seq { first });
    match l {
        Jl::Nil => {
            lemma_srun_push(acc, Ev::SeqEnd);
            assert(top.drop_last() =~= st);
            assert(out.push(']') =~= out + seq![']']);
        }
        Jl::Cons(v, r) => {
            lemma_write(*v, acc, top, out);
            let o = out + separator(top) + w(*v);
            assert(bump_top(top) =~= st.push(ContainerState::Seq { first: false }));
            lemma_write_l(*r, evs(*v, acc, false), st, false, o);
            assert(o + wl(*r, false) =~= out + wl(l, first));
        }
    }
}
pub proof fn lemma_write_m(l: Jm, acc: Seq<Ev>, st: Seq<ContainerState>, first: bool, out: Seq<char>)
    requires srun(acc) == Some(mk(st.push(ContainerState::Map { first, key_pos: true }), out)),
    ensures srun(evs_m(l, acc, false)) == Some(mk(st, out + wm(l, first))),
    decreases l,
{
    let top = st.push(ContainerState::Map { first, key_pos: true });
    match l {
        Jm::Nil => {
            lemma_srun_push(acc, Ev::MapEnd);
            assert(top.drop_last() =~= st);
            assert(out.push('}') =~= out + seq!['}']);
        }
        Jm::Cons(k, v, r) => {
            let t = key_text(key_ev(k))->0;
            lemma_srun_push(acc, key_ev(k));
            let top2 = st.push(ContainerState::Map { first: false, key_pos: false });
            assert(bump_top(top) =~= top2);
            let o2 = (out + separator(top) + t).push(':');
            let acc2 = acc.push(key_ev(k));
            lemma_write(*v, acc2, top2, o2);
            assert(bump_top(top2) =~= st.push(ContainerState::Map { first: false, key_pos: true }));
            let o = o2 + separator(top2) + w(*v);
            lemma_write_m(*r, evs(*v, acc2, false), st, false, o);
            assert(o + wm(*r, false) =~= out + wm(l, first));
        }
    }
}

// --- bytes of a text ------------------------------------------------------------
pub open spec fn by(t: Seq<char>) -> Seq<u8> { encode_utf8(t) }

pub proof fn lemma_by_cat(a: Seq<char>, b: Seq<char>)
    ensures by(a + b) == by(a) + by(b),
{ encode_utf8_concat(a, b); }
pub proof fn lemma_by_ascii(c: char)
    requires (c as u32) < 0x80,
    ensures by(seq![c]) == seq![c as u8],
{ is_ascii_chars_encode_utf8(seq![c]); assert(by(seq![c]) =~= seq![c as u8]); }
pub proof fn lemma_by_empty()
    ensures by(Seq::<char>::empty()) == Seq::<u8>::empty(),
{ is_ascii_chars_encode_utf8(Seq::<char>::empty()); assert(by(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }

/// Every byte of a character beyond ASCII is at least 0x80.
pub proof fn lemma_by_wide(c: char)
    requires (c as u32) >= 0x80,
    ensures forall|n: int| 0 <= n < by(seq![c]).len() ==> #[trigger] by(seq![c])[n] >= 0x80,
{
    let d = seq![c];
    assert forall|n: int| 0 <= n < by(d).len() implies #[trigger] by(d)[n] >= 0x80 by {
        if by(d)[n] < 0x80 {
            lemma_prefix(d, n);
            let a = decode_utf8(encode_utf8(d).take(n));
            let r = decode_utf8(encode_utf8(d).skip(n + 1));
            let x = encode_utf8(d)[n] as char;
            let whole = a.push(x) + r;
            assert(whole.len() == a.len() + 1 + r.len());
            assert(a.len() == 0 && r.len() == 0);
            assert(whole[0] == x && d[0] == c);
            assert(c == x);
            assert((encode_utf8(d)[n] as char) as u32 == encode_utf8(d)[n] as u32);
        }
    }
}

// --- strings ---------------------------------------------------------------------
/// Bytes that need no escape are taken over one by one.
pub proof fn lemma_read_plain(pre: Seq<u8>, p: Seq<u8>, post: Seq<u8>, acc: Seq<u8>)
    requires forall|n: int| 0 <= n < p.len() ==> !byte_needs_escape(#[trigger] p[n]),
    ensures str_body(pre + p + post, pre.len() as int, acc) == str_body(pre + p + post, (pre.len() + p.len()) as int, acc + p),
    decreases p.len(),
{
    let s = pre + p + post;
    if p.len() == 0 { assert(acc + p =~= acc); }
    else {
        reveal(str_body);
        let pre2 = pre.push(p[0]);
        let p2 = p.skip(1);
        assert(pre2 + p2 + post =~= s);
        assert(s[pre.len() as int] == p[0]);
        assert forall|n: int| 0 <= n < p2.len() implies !byte_needs_escape(#[trigger] p2[n]) by { assert(p2[n] == p[n + 1]); }
        lemma_read_plain(pre2, p2, post, acc.push(p[0]));
        assert(acc.push(p[0]) + p2 =~= acc + p);
    }
}
pub proof fn lemma_hex_char(n: int)
    requires 0 <= n < 16,
    ensures (hex_char(n) as u32) < 0x80, hex_digit(hex_char(n) as u8) == Some(n),
{ }
/// One character of a literal.
pub proof fn lemma_read_char(pre: Seq<u8>, c: char, post: Seq<u8>, acc: Seq<u8>)
    ensures
        str_body(pre + by(esc_char(c)) + post, pre.len() as int, acc)
            == str_body(pre + by(esc_char(c)) + post, (pre.len() + by(esc_char(c)).len()) as int, acc + by(seq![c])),
{
    let e = esc_char(c);
    let s = pre + by(e) + post;
    let i = pre.len() as int;
    if !needs_escape(c) {
        if (c as u32) < 0x80 { lemma_by_ascii(c); } else { lemma_by_wide(c); }
        assert(e == seq![c]);
        lemma_read_plain(pre, by(e), post, acc);
    } else {
        assert((c as u32) < 0x80);
        lemma_by_ascii(c);
        is_ascii_chars_encode_utf8(e) ;
        reveal(str_body);
        reveal(escape);
        let b = by(e);
        assert forall|k: int| 0 <= k < b.len() implies at(s, i + k) == #[trigger] b[k] by { }
        assert(utf8(c) == by(seq![c]));
        assert(s[i] == 0x5c) by { assert(b[0] == e[0] as u8); }
        if c == '"' || c == '\\' || c == '\u{8}' || c == '\t' || c == '\n' || c == '\u{c}' || c == '\r' {
            assert(b[1] == e[1] as u8);
            assert(at(s, i + 1) == e[1] as u8);
        } else {
            let n = c as u32 as int;
            lemma_hex_char(n / 16);
            lemma_hex_char(n % 16);
            assert(e.len() == 6);
            assert(b[1] == e[1] as u8 && b[2] == e[2] as u8 && b[3] == e[3] as u8 && b[4] == e[4] as u8 && b[5] == e[5] as u8);
            reveal(hex4);
            reveal_with_fuel(hex_val, 6);
            assert(at(s, i + 1) == 0x75);
            assert(at(s, i + 2) == 0x30 && at(s, i + 3) == 0x30);
            assert(hex_digit(at(s, i + 4)) == Some(n / 16));
            assert(hex_digit(at(s, i + 5)) == Some(n % 16));
            assert(hex4(s, i + 2) == Some(n));
            assert(n as u32 as char == c);
        }
    }
}
pub proof fn lemma_read_chars(pre: Seq<u8>, cs: Seq<char>, post: Seq<u8>, acc: Seq<u8>)
    ensures
        str_body(pre + by(esc(cs)) + post, pre.len() as int, acc)
            == str_body(pre + by(esc(cs)) + post, (pre.len() + by(esc(cs)).len()) as int, acc + by(cs)),
    decreases cs.len(),
{
    let s = pre + by(esc(cs)) + post;
    if cs.len() == 0 { lemma_by_empty(); assert(cs =~= seq![]); assert(acc + by(cs) =~= acc); assert(esc(cs) =~= seq![]); }
    else {
        let a = cs.drop_last();
        let c = cs.last();
        lemma_by_cat(esc(a), esc_char(c));
        lemma_by_cat(a, seq![c]);
        assert(a + seq![c] =~= cs);
        let mid = by(esc_char(c));
        assert(pre + by(esc(a)) + (mid + post) =~= s);
        lemma_read_chars(pre, a, mid + post, acc);
        let pre2 = pre + by(esc(a));
        assert(pre2 + mid + post =~= s);
        lemma_read_char(pre2, c, post, acc + by(a));
        assert(acc + by(a) + by(seq![c]) =~= acc + by(cs));
    }
}
/// A literal reads as the text it was written for.
pub proof fn lemma_read_str(pre: Seq<u8>, cs: Seq<char>, post: Seq<u8>)
    ensures
        by(lit(cs)).len() > 0,
        lex(pre + by(lit(cs)) + post, pre.len() as int) == Some((Tok::Scalar(Ev::Str(cs)), (pre.len() + by(lit(cs)).len()) as int)),
{
    let s = pre + by(lit(cs)) + post;
    let q = seq![0x22u8];
    lemma_by_ascii('"');
    lemma_by_cat(seq!['"'], esc(cs));
    lemma_by_cat(seq!['"'] + esc(cs), seq!['"']);
    assert(by(lit(cs)) =~= q + by(esc(cs)) + q);
    assert((pre + q) + by(esc(cs)) + (q + post) =~= s);
    lemma_read_chars(pre + q, cs, q + post, seq![]);
    assert(Seq::<u8>::empty() + by(cs) =~= by(cs));
    reveal(lex);
    reveal(str_body);
    assert(s[pre.len() as int] == 0x22);
    let e = (pre.len() + 1 + by(esc(cs)).len()) as int;
    assert(s[e] == 0x22);
    encode_utf8_valid_utf8(cs);
    encode_utf8_decode_utf8(cs);
}

// --- numbers ----------------------------------------------------------------------
pub open spec fn num_ends(post: Seq<u8>) -> bool {
    post.len() == 0 || !is_digit(post[0]) && post[0] != 0x2e && !is_exp(post[0])
}
pub proof fn lemma_digit_char(n: nat)
    requires n < 10,
    ensures (digit_char(n) as u32) < 0x80, digit_char(n) as u8 == 0x30 + n,
{ }
pub proof fn lemma_dec_bytes(n: nat)
    ensures
        by(dec_digits(n)).len() == dec_digits(n).len() > 0,
        forall|k: int| 0 <= k < by(dec_digits(n)).len() ==> is_digit(#[trigger] by(dec_digits(n))[k]),
        n == 0 ==> by(dec_digits(n)).len() == 1,
        n > 0 ==> by(dec_digits(n))[0] != 0x30,
        n >= 10 ==> by(dec_digits(n)) == by(dec_digits(n / 10)).push((0x30 + n % 10) as u8),
        n < 10 ==> by(dec_digits(n)) == seq![(0x30 + n) as u8],
    decreases n,
{
    if n < 10 { lemma_digit_char(n); lemma_by_ascii(digit_char(n)); }
    else {
        lemma_dec_bytes(n / 10);
        lemma_digit_char(n % 10);
        lemma_by_ascii(digit_char(n % 10));
        lemma_by_cat(dec_digits(n / 10), seq![digit_char(n % 10)]);
        assert(dec_digits(n / 10) + seq![digit_char(n % 10)] =~= dec_digits(n));
        assert(by(dec_digits(n)) =~= by(dec_digits(n / 10)).push((0x30 + n % 10) as u8));
    }
}
pub proof fn lemma_dec_val_last(s: Seq<u8>, i: int, j: int, acc: int)
    requires i <= j,
    ensures dec_val(s, i, j + 1, acc) == dec_val(s, i, j, acc) * 10 + (at(s, j) - 0x30),
    decreases j - i,
{
    if i < j { lemma_dec_val_last(s, i + 1, j, acc * 10 + (at(s, i) - 0x30)); }
    else { reveal_with_fuel(dec_val, 2); }
}
pub proof fn lemma_dec_val(pre: Seq<u8>, n: nat, post: Seq<u8>)
    ensures dec_val(pre + by(dec_digits(n)) + post, pre.len() as int, (pre.len() + by(dec_digits(n)).len()) as int, 0) == n,
    decreases n,
{
    let s = pre + by(dec_digits(n)) + post;
    let i = pre.len() as int;
    lemma_dec_bytes(n);
    if n < 10 {
        reveal_with_fuel(dec_val, 3);
        assert(at(s, i) == 0x30 + n);
    } else {
        let d = (0x30 + n % 10) as u8;
        let h = by(dec_digits(n / 10));
        lemma_dec_val(pre, n / 10, seq![d] + post);
        assert(pre + h + (seq![d] + post) =~= s);
        let j = i + h.len();
        lemma_dec_val_last(s, i, j, 0);
        assert(at(s, j) == d);
        assert((n / 10) * 10 + n % 10 == n);
    }
}
pub proof fn lemma_digits_run(s: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> is_digit(#[trigger] s[k]), j == s.len() || !is_digit(s[j]),
    ensures digits_end(s, i) == j,
    decreases j - i,
{ if i < j { assert(is_digit(s[i])); lemma_digits_run(s, i + 1, j); } }

pub proof fn lemma_read_digits(pre: Seq<u8>, neg: bool, n: nat, post: Seq<u8>)
    requires num_ends(post), n <= u64::MAX,
    ensures num_at(pre + by(dec_digits(n)) + post, neg, pre.len() as int) == Some((plain_int(neg, n as int), (pre.len() + by(dec_digits(n)).len()) as int)),
{
    let s = pre + by(dec_digits(n)) + post;
    let d = by(dec_digits(n));
    let a = pre.len() as int;
    let b = a + d.len();
    lemma_dec_bytes(n);
    lemma_dec_val(pre, n, post);
    assert forall|k: int| a <= k < b implies is_digit(#[trigger] s[k]) by { assert(s[k] == d[k - a]); }
    assert(b < s.len() ==> s[b] == post[0]);
    lemma_digits_run(s, a + 1, b);
    assert(s[a] == d[0]);
    if n == 0 { assert(b == a + 1); }
    reveal(num_at);
}
pub proof fn lemma_read_int(pre: Seq<u8>, x: int, post: Seq<u8>)
    requires num_ends(post), i64::MIN <= x <= u64::MAX,
    ensures
        by(int_text(x)).len() > 0,
        lex(pre + by(int_text(x)) + post, pre.len() as int)
            == Some((Tok::Scalar(if x >= 0 { Ev::U64(x as u64) } else { Ev::I64(x as i64) }), (pre.len() + by(int_text(x)).len()) as int)),
{
    let s = pre + by(int_text(x)) + post;
    let i = pre.len() as int;
    reveal(lex);
    if x >= 0 {
        lemma_dec_bytes(x as nat);
        lemma_read_digits(pre, false, x as nat, post);
        assert(s[i] == by(dec_digits(x as nat))[0]);
        assert(is_digit(s[i]));
    } else {
        let n = (-x) as nat;
        let m = seq![0x2du8];
        lemma_dec_bytes(n);
        lemma_by_ascii('-');
        lemma_by_cat(seq!['-'], dec_digits(n));
        assert((pre + m) + by(dec_digits(n)) + post =~= s);
        lemma_read_digits(pre + m, true, n, post);
        assert(s[i] == 0x2d);
    }
}

// --- words and punctuation -----------------------------------------------------------
pub proof fn lemma_read_word(pre: Seq<u8>, e: Ev, post: Seq<u8>)
    requires e == Ev::Null || e == Ev::Bool(true) || e == Ev::Bool(false),
    ensures
        by(scalar_text(e)->0).len() > 0,
        lex(pre + by(scalar_text(e)->0) + post, pre.len() as int) == Some((Tok::Scalar(e), (pre.len() + by(scalar_text(e)->0).len()) as int)),
{
    let t = scalar_text(e)->0;
    let s = pre + by(t) + post;
    let i = pre.len() as int;
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    is_ascii_chars_encode_utf8(t);
    reveal(lex);
    let b = by(t);
    assert(forall|k: int| 0 <= k < b.len() ==> at(s, i + k) == #[trigger] b[k]);
    assert(b[0] == t[0] as u8 && b[1] == t[1] as u8 && b[2] == t[2] as u8 && b[3] == t[3] as u8);
    if e == Ev::Bool(false) { assert(b[4] == t[4] as u8); }
}
pub open spec fn is_punct(b: u8) -> bool { b == 0x7b || b == 0x7d || b == 0x5b || b == 0x5d || b == 0x2c || b == 0x3a }
pub open spec fn punct(b: u8) -> Tok {
    if b == 0x7b { Tok::MapStart } else if b == 0x7d { Tok::MapEnd } else if b == 0x5b { Tok::SeqStart } else if b == 0x5d { Tok::SeqEnd }
    else if b == 0x2c { Tok::Comma } else { Tok::Colon }
}
pub proof fn lemma_read_punct(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), is_punct(s[i]),
    ensures lex(s, i) == Some((punct(s[i]), i + 1)),
{ reveal(lex); }

// --- documents -----------------------------------------------------------------------
pub proof fn lemma_read_scalar(v: Jv, pre: Seq<u8>, post: Seq<u8>)
    requires num_ends(post), !(v is Seq), !(v is Map),
    ensures
        by(w(v)).len() > 0,
        lex(pre + by(w(v)) + post, pre.len() as int) == Some((Tok::Scalar(back(leaf(v), true)), (pre.len() + by(w(v)).len()) as int)),
{
    match v {
        Jv::Null => { lemma_read_word(pre, Ev::Null, post); }
        Jv::Bool(b) => { lemma_read_word(pre, Ev::Bool(b), post); }
        Jv::U64(x) => { lemma_read_int(pre, x as int, post); }
        Jv::I64(x) => { lemma_read_int(pre, x as int, post); }
        Jv::F64(x) => { if is_fin(x) { ax_float_text(x, pre, post); } else { lemma_read_word(pre, Ev::Null, post); } }
        Jv::Str(t) => { lemma_read_str(pre, t, post); }
        Jv::Char(c) => { lemma_read_str(pre, seq![c], post); }
        _ => {}
    }
}
pub proof fn lemma_read(v: Jv, pre: Seq<u8>, post: Seq<u8>, acc: Seq<Ev>)
    requires num_ends(post),
    ensures
        by(w(v)).len() > 0,
        p_value(pre + by(w(v)) + post, pre.len() as int, acc) == Some((evs(v, acc, true), (pre.len() + by(w(v)).len()) as int)),
    decreases v,
{
    let s = pre + by(w(v)) + post;
    let i = pre.len() as int;
    match v {
        Jv::Seq(l) => {
            lemma_by_ascii('[');
            lemma_by_cat(seq!['['], wl(l, true));
            let pre2 = pre + seq![0x5bu8];
            assert(pre2 + by(wl(l, true)) + post =~= s);
            lemma_read_punct(s, i);
            lemma_read_l(l, true, pre2, post, acc.push(Ev::SeqStart));
        }
        Jv::Map(l) => {
            lemma_by_ascii('{');
            lemma_by_cat(seq!['{'], wm(l, true));
            let pre2 = pre + seq![0x7bu8];
            assert(pre2 + by(wm(l, true)) + post =~= s);
            lemma_read_punct(s, i);
            lemma_read_m(l, true, pre2, post, acc.push(Ev::MapStart));
        }
        _ => { lemma_read_scalar(v, pre, post); }
    }
}
/// What starts a value.
pub proof fn lemma_value_lex(s: Seq<u8>, i: int, acc: Seq<Ev>)
    requires p_value(s, i, acc) is Some,
    ensures lex(s, i) matches Some((t, e)) && i < e <= s.len() && !(t is SeqEnd) && !(t is MapEnd) && !(t is Comma),
{ }
pub proof fn lemma_wl_start(l: Jl, post: Seq<u8>)
    ensures num_ends(by(wl(l, false)) + post), by(wl(l, false)).len() > 0, l is Cons ==> (by(wl(l, false)))[0] == 0x2c,
{
    lemma_by_ascii(']');
    lemma_by_ascii(',');
    match l {
        Jl::Nil => {}
        Jl::Cons(v, r) => {
            let rest = w(*v) + wl(*r, false);
            assert(wl(l, false) =~= seq![','] + rest);
            lemma_by_cat(seq![','], rest);
        }
    }
}
pub proof fn lemma_read_l(l: Jl, first: bool, pre: Seq<u8>, post: Seq<u8>, acc: Seq<Ev>)
    requires num_ends(post),
    ensures
        by(wl(l, first)).len() > 0,
        p_elements(pre + by(wl(l, first)) + post, pre.len() as int, first, acc) == Some((evs_l(l, acc, true), (pre.len() + by(wl(l, first)).len()) as int)),
    decreases l,
{
    let s = pre + by(wl(l, first)) + post;
    let i = pre.len() as int;
    match l {
        Jl::Nil => {
            lemma_by_ascii(']');
            lemma_read_punct(s, i);
        }
        Jl::Cons(v, r) => {
            let c = if first { seq![] } else { seq![0x2cu8] };
            lemma_by_ascii(',');
            lemma_by_empty();
            lemma_by_cat(comma(first), w(*v));
            lemma_by_cat(comma(first) + w(*v), wl(*r, false));
            assert(by(comma(first)) =~= c);
            let tail = by(wl(*r, false)) + post;
            lemma_wl_start(*r, post);
            let pre2 = pre + c;
            assert(pre2 + by(w(*v)) + tail =~= s);
            lemma_read(*v, pre2, tail, acc);
            let a = evs(*v, acc, true);
            let pre3 = pre2 + by(w(*v));
            assert(pre3 + by(wl(*r, false)) + post =~= s);
            lemma_read_l(*r, false, pre3, post, a);
            if first { assert(pre2 =~= pre); lemma_value_lex(s, i, acc); }
            else { lemma_read_punct(s, i); }
        }
    }
}
pub proof fn lemma_wm_start(l: Jm, post: Seq<u8>)
    ensures num_ends(by(wm(l, false)) + post), by(wm(l, false)).len() > 0,
{
    lemma_by_ascii('}');
    lemma_by_ascii(',');
    match l {
        Jm::Nil => {}
        Jm::Cons(k, v, r) => {
            let rest = (key_text(key_ev(k))->0) + seq![':'] + w(*v) + wm(*r, false);
            assert(wm(l, false) =~= seq![','] + rest);
            lemma_by_cat(seq![','], rest);
        }
    }
}
/// The bytes of one member and what follows it.
pub proof fn lemma_by_member(first: bool, kt: Seq<char>, vt: Seq<char>, rt: Seq<char>)
    ensures by(comma(first) + kt + seq![':'] + vt + rt) == (if first { seq![] } else { seq![0x2cu8] }) + by(kt) + seq![0x3au8] + by(vt) + by(rt),
{
    let c = if first { seq![] } else { seq![0x2cu8] };
    lemma_by_ascii(',');
    lemma_by_ascii(':');
    lemma_by_empty();
    lemma_by_cat(comma(first), kt);
    lemma_by_cat(comma(first) + kt, seq![':']);
    lemma_by_cat(comma(first) + kt + seq![':'], vt);
    lemma_by_cat(comma(first) + kt + seq![':'] + vt, rt);
    assert(by(comma(first)) =~= c);
}
pub proof fn lemma_member_step(s: Seq<u8>, j: int, ks: Seq<char>, i2: int, acc: Seq<Ev>, a: Seq<Ev>, j2: int, fin: Option<(Seq<Ev>, int)>)
    requires
        lex(s, j) == Some((Tok::Scalar(Ev::Str(ks)), i2)),
        lex(s, i2) == Some((Tok::Colon, i2 + 1)),
        p_value(s, i2 + 1, acc.push(Ev::Str(ks))) == Some((a, j2)),
        p_members(s, j2, false, a) == fin,
        0 <= j < i2 < i2 + 1 < j2 <= s.len(),
    ensures p_member(s, j, acc) == fin,
{ }
pub proof fn lemma_key(k: Jk)
    ensures ({
        let ks = match k { Jk::Str(t) => t, Jk::Char(c) => seq![c] };
        key_text(key_ev(k)) == Some(lit(ks)) && back(key_ev(k), true) == Ev::Str(ks)
    }),
{ }
pub proof fn lemma_glue(pre: Seq<u8>, c: Seq<u8>, k: Seq<u8>, m: Seq<u8>, v: Seq<u8>, r: Seq<u8>, post: Seq<u8>)
    ensures ({
        let s = pre + (c + k + m + v + r) + post;
        &&& (pre + c) + k + (m + v + (r + post)) == s
        &&& (pre + c + k + m) + v + (r + post) == s
        &&& (pre + c + k + m + v) + r + post == s
        &&& m.len() == 1 ==> s[(pre.len() + c.len() + k.len()) as int] == m[0]
        &&& c.len() == 1 ==> s[pre.len() as int] == c[0]
    }),
{
    let s = pre + (c + k + m + v + r) + post;
    assert((pre + c) + k + (m + v + (r + post)) =~= s);
    assert((pre + c + k + m) + v + (r + post) =~= s);
    assert((pre + c + k + m + v) + r + post =~= s);
}
pub proof fn lemma_members_step(s: Seq<u8>, i: int, j: int, first: bool, ks: Seq<char>, i2: int, acc: Seq<Ev>, fin: Option<(Seq<Ev>, int)>)
    requires
        lex(s, j) == Some((Tok::Scalar(Ev::Str(ks)), i2)),
        p_member(s, j, acc) == fin,
        first ==> i == j,
        !first ==> j == i + 1 && lex(s, i) == Some((Tok::Comma, j)),
        0 <= j < i2 <= s.len(),
    ensures p_members(s, i, first, acc) == fin,
{ }
pub proof fn lemma_evs_m_cons(k: Jk, v: Jv, r: Jm, acc: Seq<Ev>, read: bool)
    ensures evs_m(Jm::Cons(k, Box::new(v), Box::new(r)), acc, read) == evs_m(r, evs(v, acc.push(back(key_ev(k), read)), read), read),
{ }
pub proof fn lemma_read_m(l: Jm, first: bool, pre: Seq<u8>, post: Seq<u8>, acc: Seq<Ev>)
    requires num_ends(post),
    ensures
        by(wm(l, first)).len() > 0,
        p_members(pre + by(wm(l, first)) + post, pre.len() as int, first, acc) == Some((evs_m(l, acc, true), (pre.len() + by(wm(l, first)).len()) as int)),
    decreases l,
{
    hide(p_value); hide(p_member); hide(evs);
    let s = pre + by(wm(l, first)) + post;
    let i = pre.len() as int;
    match l {
        Jm::Nil => {
            lemma_by_ascii('}');
            lemma_read_punct(s, i);
        }
        Jm::Cons(k, v, r) => {
            let c = if first { seq![] } else { seq![0x2cu8] };
            let colon = seq![0x3au8];
            let ks = match k { Jk::Str(t) => t, Jk::Char(c) => seq![c] };
            let kb = by(lit(ks));
            let vb = by(w(*v));
            let rb = by(wm(*r, false));
            let tail = rb + post;
            let acc2 = acc.push(Ev::Str(ks));
            let a = evs(*v, acc2, true);
            let pre2 = pre + c;
            let pre3 = pre + c + kb + colon;
            let pre4 = pre + c + kb + colon + vb;
            let j = pre2.len() as int;
            let i2 = (pre2.len() + kb.len()) as int;
            let fin = Some((evs_m(l, acc, true), (pre.len() + by(wm(l, first)).len()) as int));
            lemma_key(k);
            lemma_evs_m_cons(k, *v, *r, acc, true);
            assert(evs_m(l, acc, true) == evs_m(*r, a, true));
            lemma_by_member(first, lit(ks), w(*v), wm(*r, false));
            assert(by(wm(l, first)) == c + kb + colon + vb + rb);
            lemma_glue(pre, c, kb, colon, vb, rb, post);
            lemma_wm_start(*r, post);
            lemma_read_str(pre2, ks, colon + vb + tail);
            lemma_read_punct(s, i2);
            lemma_read(*v, pre3, tail, acc2);
            lemma_read_m(*r, false, pre4, post, a);
            lemma_member_step(s, j, ks, i2, acc, a, pre4.len() as int, fin);
            if !first { lemma_read_punct(s, i); } else { assert(pre2 =~= pre); }
            lemma_members_step(s, i, j, first, ks, i2, acc, fin);
        }
    }
}

/// Whatever is written for a value reads back as that value.
pub proof fn lemma_roundtrip(v: Jv)
    ensures
        srun(evs(v, seq![], false)) == Some(mk(seq![], w(v))),
        doc(by(w(v)), 0, seq![]) == Some(evs(v, seq![], true)),
{
    let st: Seq<ContainerState> = seq![];
    lemma_write(v, seq![], st, seq![]);
    assert(Seq::<char>::empty() + separator(st) + w(v) =~= w(v));
    let e = Seq::<u8>::empty();
    lemma_read(v, e, e, seq![]);
    assert(e + by(w(v)) + e =~= by(w(v)));
}

// --- every stream the serializer accepts is the events of such a tree -------------------
/// The events of t that come before its rest r.
pub open spec fn used(t: Seq<Ev>, r: Seq<Ev>) -> Seq<Ev> { t.take(t.len() - r.len()) }
pub proof fn lemma_srun_prefix(a: Seq<Ev>, b: Seq<Ev>)
    requires srun(a + b) is Some,
    ensures srun(a) is Some,
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_srun_prefix(a, b.drop_last()); }
}
pub proof fn lemma_rest(t: Seq<Ev>)
    ensures one(t) matches Some(r) ==> r.len() < t.len() && r =~= t.skip(t.len() - r.len()),
    decreases t.len(), 0int,
{
    if t.len() > 0 {
        match t[0] { Ev::MapStart => { lemma_rest_m(t.skip(1), true); } Ev::SeqStart => { lemma_rest_l(t.skip(1)); } _ => {} }
    }
}
pub proof fn lemma_rest_m(t: Seq<Ev>, key: bool)
    ensures one_members(t, key) matches Some(r) ==> r.len() < t.len() && r =~= t.skip(t.len() - r.len()),
    decreases t.len(), 1int,
{ if t.len() > 0 && !(t[0] is MapEnd) { lemma_rest(t); if one(t) is Some { lemma_rest_m(one(t)->0, !key); } } }
pub proof fn lemma_rest_l(t: Seq<Ev>)
    ensures one_items(t) matches Some(r) ==> r.len() < t.len() && r =~= t.skip(t.len() - r.len()),
    decreases t.len(), 1int,
{ if t.len() > 0 && !(t[0] is SeqEnd) { lemma_rest(t); if one(t) is Some { lemma_rest_l(one(t)->0); } } }

pub proof fn lemma_tree(acc: Seq<Ev>, t: Seq<Ev>, st: Seq<ContainerState>, out: Seq<char>) -> (v: Jv)
    requires one(t) is Some, srun(acc) == Some(mk(st, out)), !at_key(st), srun(acc + t) is Some,
    ensures evs(v, acc, false) == acc + used(t, one(t)->0),
    decreases t.len(), 0int,
{
    let e = t[0];
    let r = one(t)->0;
    lemma_rest(t);
    assert(acc + t =~= acc.push(e) + t.skip(1));
    lemma_srun_prefix(acc.push(e), t.skip(1));
    lemma_srun_push(acc, e);
    match e {
        Ev::MapStart => {
            let o = (out + separator(st)).push('{');
            let m = lemma_tree_m(acc.push(e), t.skip(1), bump_top(st), true, o);
            assert(acc.push(e) + used(t.skip(1), r) =~= acc + used(t, r));
            Jv::Map(m)
        }
        Ev::SeqStart => {
            let o = (out + separator(st)).push('[');
            let l = lemma_tree_l(acc.push(e), t.skip(1), bump_top(st), true, o);
            assert(acc.push(e) + used(t.skip(1), r) =~= acc + used(t, r));
            Jv::Seq(l)
        }
        _ => {
            assert(acc.push(e) =~= acc + used(t, r));
            match e { Ev::Null => Jv::Null, Ev::Bool(b) => Jv::Bool(b), Ev::U64(x) => Jv::U64(x), Ev::I64(x) => Jv::I64(x), Ev::F64(x) => Jv::F64(x),
                Ev::Str(x) => Jv::Str(x), Ev::Char(x) => Jv::Char(x), _ => Jv::Null }
        }
    }
}
/// The first value of t, then the rest.
pub proof fn lemma_split(acc: Seq<Ev>, t: Seq<Ev>, r: Seq<Ev>, fin: Seq<Ev>)
    requires r.len() < t.len(), r =~= t.skip(t.len() - r.len()), fin.len() <= r.len(), fin =~= r.skip(r.len() - fin.len()),
    ensures acc + t == (acc + used(t, r)) + r, acc + used(t, fin) == (acc + used(t, r)) + used(r, fin),
{
    assert(acc + t =~= (acc + used(t, r)) + r);
    assert(acc + used(t, fin) =~= (acc + used(t, r)) + used(r, fin));
}
pub proof fn lemma_tree_l(acc: Seq<Ev>, t: Seq<Ev>, st: Seq<ContainerState>, first: bool, out: Seq<char>) -> (l: Jl)
    requires one_items(t) is Some, srun(acc) == Some(mk(st.push(ContainerState::Seq { first }), out)), srun(acc + t) is Some,
    ensures evs_l(l, acc, false) == acc + used(t, one_items(t)->0),
    decreases t.len(), 1int,
{
    let fin = one_items(t)->0;
    lemma_rest_l(t);
    if t[0] is SeqEnd { assert(acc.push(t[0]) =~= acc + used(t, fin)); Jl::Nil }
    else {
        let r = one(t)->0;
        let top = st.push(ContainerState::Seq { first });
        lemma_rest(t);
        lemma_rest_l(r);
        lemma_split(acc, t, r, fin);
        let v = lemma_tree(acc, t, top, out);
        let acc2 = evs(v, acc, false);
        lemma_write(v, acc, top, out);
        assert(bump_top(top) =~= st.push(ContainerState::Seq { first: false }));
        let l = lemma_tree_l(acc2, r, st, false, out + separator(top) + w(v));
        Jl::Cons(Box::new(v), Box::new(l))
    }
}
pub proof fn lemma_tree_m(acc: Seq<Ev>, t: Seq<Ev>, st: Seq<ContainerState>, first: bool, out: Seq<char>) -> (m: Jm)
    requires one_members(t, true) is Some, srun(acc) == Some(mk(st.push(ContainerState::Map { first, key_pos: true }), out)), srun(acc + t) is Some,
    ensures evs_m(m, acc, false) == acc + used(t, one_members(t, true)->0),
    decreases t.len(), 1int,
{
    let fin = one_members(t, true)->0;
    lemma_rest_m(t, true);
    if t[0] is MapEnd { assert(acc.push(t[0]) =~= acc + used(t, fin)); Jm::Nil }
    else {
        let e = t[0];
        let top = st.push(ContainerState::Map { first, key_pos: true });
        let top2 = st.push(ContainerState::Map { first: false, key_pos: false });
        let a = t.skip(1);
        // the key is a scalar
        assert(acc + t =~= acc.push(e) + a);
        lemma_srun_prefix(acc.push(e), a);
        lemma_srun_push(acc, e);
        assert(key_text(e) is Some);
        assert(one(t) == Some(a));
        let k = match e { Ev::Str(x) => Jk::Str(x), Ev::Char(x) => Jk::Char(x), _ => Jk::Char('a') };
        assert(key_ev(k) == e);
        assert(bump_top(top) =~= top2);
        let out2 = (out + separator(top) + key_text(e)->0).push(':');
        let acc1 = acc.push(e);
        // its value
        lemma_rest(a);
        let r = one(a)->0;
        lemma_rest_m(a, false);
        lemma_rest_m(r, true);
        lemma_split(acc1, a, r, fin);
        let v = lemma_tree(acc1, a, top2, out2);
        let acc2 = evs(v, acc1, false);
        lemma_write(v, acc1, top2, out2);
        assert(bump_top(top2) =~= st.push(ContainerState::Map { first: false, key_pos: true }));
        let m = lemma_tree_m(acc2, r, st, false, out2 + separator(top2) + w(v));
        assert(acc1 + used(a, fin) =~= acc + used(t, fin));
        lemma_evs_m_cons(k, v, m, acc, false);
        Jm::Cons(k, Box::new(v), Box::new(m))
    }
}
/// All events as they are read back.
pub open spec fn backs(t: Seq<Ev>) -> Seq<Ev> { t.map_values(|e: Ev| back(e, true)) }
pub proof fn lemma_backs_push(t: Seq<Ev>, e: Ev)
    ensures backs(t.push(e)) == backs(t).push(back(e, true)),
{ assert(backs(t.push(e)) =~= backs(t).push(back(e, true))); }
pub proof fn lemma_backs(v: Jv, acc: Seq<Ev>)
    ensures evs(v, backs(acc), true) == backs(evs(v, acc, false)),
    decreases v,
{
    match v {
        Jv::Seq(l) => { lemma_backs_push(acc, Ev::SeqStart); lemma_backs_l(l, acc.push(Ev::SeqStart)); }
        Jv::Map(l) => { lemma_backs_push(acc, Ev::MapStart); lemma_backs_m(l, acc.push(Ev::MapStart)); }
        _ => { lemma_backs_push(acc, leaf(v)); }
    }
}
pub proof fn lemma_backs_l(l: Jl, acc: Seq<Ev>)
    ensures evs_l(l, backs(acc), true) == backs(evs_l(l, acc, false)),
    decreases l,
{
    match l { Jl::Nil => { lemma_backs_push(acc, Ev::SeqEnd); } Jl::Cons(v, r) => { lemma_backs(*v, acc); lemma_backs_l(*r, evs(*v, acc, false)); } }
}
pub proof fn lemma_backs_m(l: Jm, acc: Seq<Ev>)
    ensures evs_m(l, backs(acc), true) == backs(evs_m(l, acc, false)),
    decreases l,
{
    match l {
        Jm::Nil => { lemma_backs_push(acc, Ev::MapEnd); }
        Jm::Cons(k, v, r) => { let e = key_ev(k); lemma_backs_push(acc, e); lemma_backs(*v, acc.push(e)); lemma_backs_m(*r, evs(*v, acc.push(e), false)); }
    }
}
/// C07, C08: for the events of one value (C17) that the serializer takes, its
/// text is one JSON document, and the parser reads from it the same events,
/// scalars in the form JSON gives them.
pub proof fn lemma_document(t: Seq<Ev>)
    requires one_value(t), srun(t) is Some,
    ensures
        srun(t)->0.stack.len() == 0,
        doc(by(srun(t)->0.out), 0, seq![]) == Some(backs(t)),
{
    let z = Seq::<Ev>::empty();
    assert(z + t =~= t);
    assert(!at_key(Seq::<ContainerState>::empty()));
    let v = lemma_tree(z, t, seq![], seq![]);
    assert(z + used(t, z) =~= t);
    lemma_roundtrip(v);
    lemma_backs(v, z);
    assert(backs(z) =~= z);
}

// --- what the parser hands out is one value ------------------------------------------------
pub open spec fn structural(e: Ev) -> bool { e is MapStart || e is MapEnd || e is SeqStart || e is SeqEnd }
pub proof fn lemma_num_scalar(s: Seq<u8>, neg: bool, i: int)
    ensures num_at(s, neg, i) matches Some((e, _)) ==> !structural(e),
{ reveal(num_at); reveal(num_tail); reveal(num_frac); reveal(num_exp); }
pub proof fn lemma_lex_scalar(s: Seq<u8>, i: int)
    ensures lex(s, i) matches Some((Tok::Scalar(e), _)) ==> !structural(e),
{ reveal(lex); let j = skip_ws(s, i); if j < s.len() { lemma_num_scalar(s, false, j); lemma_num_scalar(s, true, j + 1); } }
/// acc became a, by events that are one value when r follows.
pub open spec fn added(acc: Seq<Ev>, a: Seq<Ev>, r: Seq<Ev>) -> Seq<Ev> { a.skip(acc.len() as int) + r }
pub proof fn lemma_added(acc: Seq<Ev>, b: Seq<Ev>, a: Seq<Ev>, r: Seq<Ev>)
    requires acc.is_prefix_of(b), b.is_prefix_of(a),
    ensures acc.is_prefix_of(a), added(acc, a, r) == added(acc, b, added(b, a, r)),
{ assert(added(acc, a, r) =~= added(acc, b, added(b, a, r))); }
pub proof fn lemma_added_first(acc: Seq<Ev>, e: Ev, a: Seq<Ev>, r: Seq<Ev>)
    requires acc.push(e).is_prefix_of(a),
    ensures acc.is_prefix_of(a), added(acc, a, r).len() > 0, added(acc, a, r)[0] == e, added(acc, a, r).skip(1) == added(acc.push(e), a, r),
{
    let b = acc.push(e);
    assert(a[acc.len() as int] == b[acc.len() as int]);
    assert(added(acc, a, r).skip(1) =~= added(b, a, r));
}
pub proof fn lemma_value_one(s: Seq<u8>, i: int, acc: Seq<Ev>, r: Seq<Ev>)
    ensures p_value(s, i, acc) matches Some((a, _)) ==> acc.is_prefix_of(a) && acc.len() < a.len() && one(added(acc, a, r)) == Some(r),
    decreases s.len() - i, 0int,
{
    lemma_lex_scalar(s, i);
    if let Some((t, e)) = lex(s, i) {
        if i < e <= s.len() {
            match t {
                Tok::Scalar(v) => { lemma_added_first(acc, v, acc.push(v), r); assert(added(acc.push(v), acc.push(v), r) =~= r); }
                Tok::SeqStart => { let b = acc.push(Ev::SeqStart); lemma_elements_one(s, e, true, b, r); if let Some((a, _)) = p_elements(s, e, true, b) { lemma_added_first(acc, Ev::SeqStart, a, r); } }
                Tok::MapStart => { let b = acc.push(Ev::MapStart); lemma_members_one(s, e, true, b, r); if let Some((a, _)) = p_members(s, e, true, b) { lemma_added_first(acc, Ev::MapStart, a, r); } }
                _ => {}
            }
        }
    }
}
pub proof fn lemma_elements_one(s: Seq<u8>, i: int, first: bool, acc: Seq<Ev>, r: Seq<Ev>)
    ensures p_elements(s, i, first, acc) matches Some((a, _)) ==> acc.is_prefix_of(a) && one_items(added(acc, a, r)) == Some(r),
    decreases s.len() - i, 1int,
{
    if let Some((t, e)) = lex(s, i) {
        if i < e <= s.len() {
            if t is SeqEnd { lemma_added_first(acc, Ev::SeqEnd, acc.push(Ev::SeqEnd), r); assert(added(acc.push(Ev::SeqEnd), acc.push(Ev::SeqEnd), r) =~= r); }
            else if first || t is Comma {
                let k = if first { i } else { e };
                if let Some((b, j)) = p_value(s, k, acc) {
                    if i < j <= s.len() {
                        lemma_elements_one(s, j, false, b, r);
                        if let Some((a, _)) = p_elements(s, j, false, b) {
                            lemma_value_one(s, k, acc, added(b, a, r));
                            lemma_added(acc, b, a, r);
                            lemma_not_end(added(acc, a, r));
                        }
                    }
                }
            }
        }
    }
}
/// A value does not start with an end.
pub proof fn lemma_not_end(t: Seq<Ev>)
    ensures one(t) is Some ==> t.len() > 0 && !(t[0] is SeqEnd) && !(t[0] is MapEnd),
{}
pub proof fn lemma_member_one(s: Seq<u8>, i: int, acc: Seq<Ev>, r: Seq<Ev>)
    ensures p_member(s, i, acc) matches Some((a, _)) ==> acc.is_prefix_of(a) && one_members(added(acc, a, r), true) == Some(r),
    decreases s.len() - i, 1int,
{
    if let Some((Tok::Scalar(Ev::Str(k)), e)) = lex(s, i) {
        if i < e <= s.len() {
            if let Some((Tok::Colon, e2)) = lex(s, e) {
                if e < e2 <= s.len() {
                    let c = acc.push(Ev::Str(k));
                    if let Some((b, j)) = p_value(s, e2, c) {
                        if i < j <= s.len() {
                            lemma_members_one(s, j, false, b, r);
                            if let Some((a, _)) = p_members(s, j, false, b) {
                                let q = added(b, a, r);
                                lemma_value_one(s, e2, c, q);
                                lemma_added(c, b, a, r);
                                lemma_added_first(acc, Ev::Str(k), a, r);
                                let t = added(c, a, r);
                                lemma_not_end(t);
                                assert(one_members(t, false) == Some(r));
                                assert(one(added(acc, a, r)) == Some(t));
                            }
                        }
                    }
                }
            }
        }
    }
}
pub proof fn lemma_members_one(s: Seq<u8>, i: int, first: bool, acc: Seq<Ev>, r: Seq<Ev>)
    ensures p_members(s, i, first, acc) matches Some((a, _)) ==> acc.is_prefix_of(a) && one_members(added(acc, a, r), true) == Some(r),
    decreases s.len() - i, 2int,
{
    if let Some((t, e)) = lex(s, i) {
        if i < e <= s.len() {
            if t is MapEnd { lemma_added_first(acc, Ev::MapEnd, acc.push(Ev::MapEnd), r); assert(added(acc.push(Ev::MapEnd), acc.push(Ev::MapEnd), r) =~= r); }
            else if first || t is Comma { lemma_member_one(s, if first { i } else { e }, acc, r); }
        }
    }
}
/// C02: what the parser feeds for a document is one value (what C18 is about).
pub proof fn lemma_parsed_one(s: Seq<u8>, i: int)
    ensures doc(s, i, seq![]) matches Some(t) ==> one_value(t),
{
    let z = Seq::<Ev>::empty();
    lemma_value_one(s, i, z, z);
    if let Some(t) = doc(s, i, z) { assert(added(z, t, z) =~= t); }
}
}
pub use rl::*;
