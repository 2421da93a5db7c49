pub mod jl {
use super::*;
// Lemmas about the JSON definitions (no trust involved).
pub broadcast proof fn lemma_skip_ws(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= #[trigger] skip_ws(s, i) <= s.len(),
    decreases s.len() - i,
{ if i < s.len() && is_ws(at(s, i)) { lemma_skip_ws(s, i + 1) } }

pub broadcast proof fn lemma_digits_end(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= #[trigger] digits_end(s, i) <= s.len(), !is_digit(at(s, digits_end(s, i))),
    decreases s.len() - i,
{ if i < s.len() && is_digit(at(s, i)) { lemma_digits_end(s, i + 1) } }

/// Appending digits never makes a number smaller.
pub broadcast proof fn lemma_dec_ge(s: Seq<u8>, i: int, acc: int)
    requires acc >= 0,
    ensures
        #[trigger] dec_val(s, i, digits_end(s, i), acc) >= acc,
        is_digit(at(s, i)) && i < s.len() ==> dec_val(s, i, digits_end(s, i), acc) >= acc * 10 + (at(s, i) - 0x30),
    decreases s.len() - i,
{
    if i < s.len() && is_digit(at(s, i)) {
        lemma_dec_ge(s, i + 1, acc * 10 + (at(s, i) - 0x30));
    }
}

pub broadcast proof fn lemma_str_at(s: Seq<u8>, a: int, i: int, j: int, buf: Seq<u8>)
    requires 0 <= a <= i < s.len(), j == i + 1,
    ensures (#[trigger] str_at(s, a, i, buf), #[trigger] str_at(s, a, j, buf)).0 ==
        if s[i] != 0x22 && s[i] != 0x5c && s[i] >= 0x20 { str_at(s, a, j, buf) } else { str_at(s, a, i, buf) },
{
    reveal(str_at); reveal(str_body);
    assert((buf + s.subrange(a, i)).push(s[i]) =~= buf + s.subrange(a, i + 1));
}
pub broadcast proof fn lemma_str_at_here(s: Seq<u8>, a: int, i: int, buf: Seq<u8>)
    requires 0 <= a <= i <= s.len(),
    ensures
        i == s.len() ==> str_at(s, a, i, buf) is None,
        a == i ==> (#[trigger] str_at(s, a, i, buf)) == str_body(s, i, buf),
        buf.len() == 0 ==> str_at(s, a, i, buf) == str_body(s, i, s.subrange(a, i)),
{
    reveal(str_at); reveal(str_body);
    assert(buf + s.subrange(i, i) =~= buf);
    if buf.len() == 0 { assert(buf + s.subrange(a, i) =~= s.subrange(a, i)); }
}

pub broadcast proof fn lemma_str_escape(s: Seq<u8>, a: int, i: int, buf: Seq<u8>, j: int)
    requires 0 <= a <= i < s.len(), s[i] == 0x5c, j == i + 1,
    ensures #![trigger str_at(s, a, i, buf), escape(s, j)]
        str_at(s, a, i, buf) == match escape(s, j) {
            Some((c, e)) => if i < e <= s.len() { str_body(s, e, buf + s.subrange(a, i) + utf8(c)) } else { None },
            None => None,
        },
{
    reveal(str_at); reveal(str_body);
    match escape(s, i + 1) { Some((c, e)) => { if i < e <= s.len() { let b2 = buf + s.subrange(a, i) + utf8(c); assert(b2 + s.subrange(e, e) =~= b2); } } None => {} }
}
pub broadcast proof fn lemma_str_end(s: Seq<u8>, a: int, i: int, buf: Seq<u8>)
    requires 0 <= a <= i < s.len(), s[i] != 0x5c,  s[i] == 0x22 || s[i] < 0x20,
    ensures (#[trigger] str_at(s, a, i, buf)) == if s[i] == 0x22 { Some((buf + s.subrange(a, i), i + 1)) } else { None },
        buf.len() == 0 ==> buf + s.subrange(a, i) == s.subrange(a, i),
{ reveal(str_at); reveal(str_body); if buf.len() == 0 { assert(buf + s.subrange(a, i) =~= s.subrange(a, i)); } }

pub broadcast proof fn lemma_has3(s: Seq<u8>, i: int, w: Seq<u8>)
    requires 0 <= i, w.len() == 3,
    ensures #[trigger] has(s, i, w) <==> (i + 3 <= s.len() && at(s, i) == w[0] && at(s, i + 1) == w[1] && at(s, i + 2) == w[2]),
{ }
pub broadcast proof fn lemma_has4(s: Seq<u8>, i: int, w: Seq<u8>)
    requires 0 <= i, w.len() == 4,
    ensures #[trigger] has(s, i, w) <==> (i + 4 <= s.len() && at(s, i) == w[0] && at(s, i + 1) == w[1] && at(s, i + 2) == w[2] && at(s, i + 3) == w[3]),
{ }

pub broadcast proof fn lemma_utf8_ascii(b: Seq<u8>, c: char)
    requires (c as u32) < 0x80,
    ensures b.push(c as u8) == #[trigger] (b + utf8(c)),
{
    broadcast use vstd::utf8::group_utf8_lib;
    vstd::utf8::is_ascii_chars_encode_utf8(seq![c]);
    assert(b.push(c as u8) =~= b + utf8(c));
}

// every document part takes at least one byte
pub proof fn lemma_value_end(s: Seq<u8>, i: int, acc: Seq<Ev>)
    ensures p_value(s, i, acc) is Some ==> i < (p_value(s, i, acc)->0).1 <= s.len(),
    decreases s.len() - i, 0int,
{
    match lex(s, i) { Some((t, e)) => { if i < e <= s.len() { match t {
        Tok::SeqStart => { lemma_elements_end(s, e, true, acc.push(Ev::SeqStart)); }
        Tok::MapStart => { lemma_members_end(s, e, true, acc.push(Ev::MapStart)); }
        _ => {} } } } None => {} }
}
pub proof fn lemma_elements_end(s: Seq<u8>, i: int, first: bool, acc: Seq<Ev>)
    ensures p_elements(s, i, first, acc) is Some ==> i < (p_elements(s, i, first, acc)->0).1 <= s.len(),
    decreases s.len() - i, 1int,
{
    match lex(s, i) { Some((t, e)) => { if i < e <= s.len() {
        let v = if first { p_value(s, i, acc) } else { p_value(s, e, acc) };
        match v { Some((a, j)) => { if i < j <= s.len() { lemma_elements_end(s, j, false, a); } } None => {} }
    } } None => {} }
}
pub proof fn lemma_member_end(s: Seq<u8>, i: int, acc: Seq<Ev>)
    ensures p_member(s, i, acc) is Some ==> i < (p_member(s, i, acc)->0).1 <= s.len(),
    decreases s.len() - i, 1int,
{
    match lex(s, i) { Some((Tok::Scalar(Ev::Str(k)), e)) => { match lex(s, e) { Some((t2, e2)) => {
        match p_value(s, e2, acc.push(Ev::Str(k))) { Some((a, j)) => { if i < j <= s.len() { lemma_members_end(s, j, false, a); } } None => {} }
    } None => {} } } _ => {} }
}
pub proof fn lemma_members_end(s: Seq<u8>, i: int, first: bool, acc: Seq<Ev>)
    ensures p_members(s, i, first, acc) is Some ==> i < (p_members(s, i, first, acc)->0).1 <= s.len(),
    decreases s.len() - i, 2int,
{
    match lex(s, i) { Some((t, e)) => { if i < e <= s.len() { lemma_member_end(s, i, acc); lemma_member_end(s, e, acc); } } None => {} }
}

// machine integers
pub broadcast proof fn lemma_u64_as_i64(x: u64)
    ensures x > 0x7fff_ffff_ffff_ffff ==> (#[trigger] (x as i64)) as int == x - 0x1_0000_0000_0000_0000,
{ assert(x > 0x7fff_ffff_ffff_ffffu64 ==> (x as i64) == -((sub(0xffff_ffff_ffff_ffffu64, x) as i64)) - 1) by(bit_vector); }
pub broadcast proof fn lemma_surrogates(a: u32, b: u32)
    requires a < 1024, b < 1024,
    ensures #[trigger] ((a << 10) | b) == a * 1024 + b,
{ assert(a < 1024 && b < 1024 ==> ((a << 10) | b) == a * 1024 + b) by(bit_vector); }
pub broadcast proof fn lemma_neg_i32_as_usize(x: i32)
    ensures x < 0 ==> #[trigger] (x as usize) > 0x7fff_ffff,
{ assert(x < 0 ==> (x as usize) > 0x7fff_ffffusize) by(bit_vector); }
pub broadcast proof fn lemma_slice_len(s: &[u8])
    ensures #[trigger] s@.len() <= usize::MAX,
{ assert(s.len() <= usize::MAX); }

pub broadcast proof fn lemma_body_ext(s: Seq<u8>, i: int, b1: Seq<u8>, b2: Seq<u8>)
    requires b1 =~= b2,
    ensures #![trigger str_body(s, i, b1), str_body(s, i, b2)] b1 == b2,
{ }
pub broadcast proof fn lemma_utf8_ext(b1: Seq<u8>, b2: Seq<u8>)
    requires b1 =~= b2,
    ensures #![trigger vstd::utf8::valid_utf8(b1), vstd::utf8::valid_utf8(b2)] b1 == b2,
{ }
pub broadcast group str_lemmas { lemma_body_ext, lemma_utf8_ext, lemma_str_at, lemma_str_at_here, lemma_str_escape, lemma_str_end }
pub broadcast group json_lemmas { lemma_utf8_ascii, lemma_has3, lemma_has4, lemma_u64_as_i64, lemma_surrogates, lemma_neg_i32_as_usize, lemma_slice_len, lemma_skip_ws, lemma_digits_end, lemma_dec_ge, }
}
pub use jl::*;
broadcast use jl::json_lemmas;
