pub mod sl {
use super::*;
use vstd::utf8::*;
pub broadcast proof fn lemma_run_push(t: Seq<Ev>, n: int)
    requires 0 <= n < t.len(),
    ensures #![trigger srun(t.take(n)), t[n]] srun(t.take(n + 1)) == match srun(t.take(n)) { Some(s) => sstep(s, t[n]), None => None },
{ assert(t.take(n + 1).drop_last() =~= t.take(n)); }
pub broadcast proof fn lemma_run_all(t: Seq<Ev>, n: int)
    requires n == t.len(),
    ensures srun(#[trigger] t.take(n)) == srun(t),
{ assert(t.take(n) =~= t); }

pub proof fn lemma_run_none(t: Seq<Ev>, n: int)
    requires 0 <= n <= t.len(), srun(t.take(n)) is None,
    ensures srun(t) is None,
    decreases t.len() - n,
{
    if n < t.len() { lemma_run_push(t, n); lemma_run_none(t, n + 1); } else { assert(t.take(n) =~= t); }
}

pub broadcast proof fn lemma_out_ext(a: Seq<char>, b: Seq<char>, st: Seq<ContainerState>, st2: Seq<ContainerState>)
    requires a =~= b, st =~= st2,
    ensures #![trigger mk(st, a), mk(st2, b)] a == b, st == st2,
{ }

/// A text that is the beginning of another one as bytes is its beginning as
/// characters.
pub proof fn lemma_prefix(d: Seq<char>, n: int)
    requires 0 <= n < encode_utf8(d).len(), encode_utf8(d)[n] < 128,
    ensures
        is_char_boundary(encode_utf8(d), n),
        is_char_boundary(encode_utf8(d), n + 1),
        ({ let a = decode_utf8(encode_utf8(d).take(n));
           let rest = decode_utf8(encode_utf8(d).skip(n + 1));
           let c = encode_utf8(d)[n] as char;
           d == a.push(c) + rest && encode_utf8(a) == encode_utf8(d).take(n) && encode_utf8(rest) == encode_utf8(d).skip(n + 1) }),
{
    let b = encode_utf8(d);
    encode_utf8_valid_utf8(d);
    encode_utf8_decode_utf8(d);
    is_char_boundary_iff_is_leading_byte(b, n);
    decode_utf8_split(b, n);
    valid_utf8_split(b, n);
    let r = b.skip(n);
    assert(r[0] == b[n]);
    assert(is_char_boundary(r, 1)) by { reveal_with_fuel(is_char_boundary, 3); is_char_boundary_start_end_of_seq(r); }
    decode_utf8_split(r, 1);
    valid_utf8_split(r, 1);
    assert(r.skip(1) =~= b.skip(n + 1));
    let c = seq![b[n] as char];
    is_ascii_chars_encode_utf8(c);
    assert(r.take(1) =~= encode_utf8(c));
    encode_utf8_decode_utf8(c);
    decode_utf8_encode_utf8(b.take(n));
    decode_utf8_encode_utf8(b.skip(n + 1));
    let a = decode_utf8(b.take(n));
    let rest = decode_utf8(b.skip(n + 1));
    assert(d =~= a.push(b[n] as char) + rest);
    // n + 1 is a boundary: split again from the left
    encode_utf8_concat(a, c);
    encode_utf8_valid_utf8(a + c);
    encode_utf8_valid_utf8(rest);
    assert(is_char_boundary(b, n + 1)) by {
        if n + 1 == b.len() { is_char_boundary_start_end_of_seq(b); }
        else {
            is_char_boundary_start_end_of_seq(r);
            is_char_boundary_iff_is_leading_byte(b, n + 1);
            is_char_boundary_iff_is_leading_byte(r, 1);
        }
    }
}

/// Text without characters to escape is written unchanged.
pub proof fn lemma_plain(s: Seq<char>)
    requires forall|i: int| 0 <= i < encode_utf8(s).len() ==> !byte_needs_escape(#[trigger] encode_utf8(s)[i]),
    ensures esc(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last();
        let c = seq![s.last()];
        assert(s =~= a + c);
        encode_utf8_concat(a, c);
        assert forall|i: int| 0 <= i < encode_utf8(a).len() implies !byte_needs_escape(#[trigger] encode_utf8(a)[i]) by {
            assert(encode_utf8(s)[i] == encode_utf8(a)[i]);
        }
        lemma_plain(a);
        if (s.last() as u32) < 128 {
            is_ascii_chars_encode_utf8(c);
            assert(encode_utf8(s)[encode_utf8(a).len() as int] == s.last() as u8);
        }
        assert(esc(s) =~= s);
    }
}
pub open spec fn byte_needs_escape(b: u8) -> bool { b == 0x22 || b == 0x5c || b < 0x20 }

pub proof fn lemma_esc_cat(a: Seq<char>, b: Seq<char>)
    ensures esc(a + b) == esc(a) + esc(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(esc(a) + esc(b) =~= esc(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_esc_cat(a, b.drop_last());
        assert(esc(a + b) =~= esc(a) + esc(b));
    }
}
/// One escaped byte: n bytes of text, then the byte.
pub proof fn lemma_esc_step(p: Seq<char>, d: Seq<char>, n: int)
    requires
        0 <= n < encode_utf8(d).len(), encode_utf8(d)[n] < 128,
        forall|i: int| 0 <= i < n ==> !byte_needs_escape(#[trigger] encode_utf8(d)[i]),
    ensures
        ({ let a = decode_utf8(encode_utf8(d).take(n));
           let c = encode_utf8(d)[n] as char;
           esc(p + a.push(c)) == esc(p) + a + esc_char(c) }),
{
    lemma_prefix(d, n);
    let a = decode_utf8(encode_utf8(d).take(n));
    let c = encode_utf8(d)[n] as char;
    assert forall|i: int| 0 <= i < encode_utf8(a).len() implies !byte_needs_escape(#[trigger] encode_utf8(a)[i]) by {
        assert(encode_utf8(a)[i] == encode_utf8(d)[i]);
    }
    lemma_plain(a);
    lemma_esc_cat(p, a.push(c));
    assert(a.push(c).drop_last() =~= a);
    assert(esc(p) + (a + esc_char(c)) =~= esc(p) + a + esc_char(c));
}
/// What one iteration over the bytes of `v` needs to know: `p` is the text of
/// the first `start` bytes, `d` the rest, and byte `i` needs no escape or is
/// the first one after `start` that does.
pub open spec fn esc_inv(v: Seq<char>, p: Seq<char>, d: Seq<char>, start: int, i: int) -> bool {
    &&& 0 <= start <= i <= encode_utf8(v).len()
    &&& v == p + d
    &&& encode_utf8(p) == encode_utf8(v).take(start)
    &&& encode_utf8(d) == encode_utf8(v).skip(start)
    &&& is_char_boundary(encode_utf8(v), start)
    &&& forall|k: int| start <= k < i ==> !byte_needs_escape(#[trigger] encode_utf8(v)[k])
}
pub open spec fn run_text(v: Seq<char>, a: int, b: int) -> Seq<char> { decode_utf8(encode_utf8(v).subrange(a, b)) }

pub proof fn lemma_esc_byte(v: Seq<char>, p: Seq<char>, d: Seq<char>, start: int, i: int) -> (r: (Seq<char>, Seq<char>))
    requires esc_inv(v, p, d, start, i), i < encode_utf8(v).len(),
    ensures
        byte_needs_escape(encode_utf8(v)[i]) ==> {
            &&& is_char_boundary(encode_utf8(v), i)
            &&& esc_inv(v, r.0, r.1, i + 1, i + 1)
            &&& esc(r.0) == esc(p) + run_text(v, start, i) + esc_char(encode_utf8(v)[i] as char)
            &&& start == i ==> run_text(v, start, i) == Seq::<char>::empty()
        },
        !byte_needs_escape(encode_utf8(v)[i]) ==> r == (p, d) && esc_inv(v, p, d, start, i + 1),
{
    let b = encode_utf8(v);
    if !byte_needs_escape(b[i]) { return (p, d); }
    let n = i - start;
    assert(encode_utf8(d)[n] == b[i]);
    assert forall|k: int| 0 <= k < n implies !byte_needs_escape(#[trigger] encode_utf8(d)[k]) by { assert(b[start + k] == encode_utf8(d)[k]); }
    lemma_prefix(d, n);
    lemma_esc_step(p, d, n);
    let a = decode_utf8(encode_utf8(d).take(n));
    let c = b[i] as char;
    let rest = decode_utf8(encode_utf8(d).skip(n + 1));
    assert(encode_utf8(d).take(n) =~= b.subrange(start, i));
    let np = p + a.push(c);
    assert(v =~= np + rest);
    assert(b.skip(i + 1) =~= encode_utf8(d).skip(n + 1));
    let c1 = seq![c];
    is_ascii_chars_encode_utf8(c1);
    assert(a.push(c) =~= a + c1);
    encode_utf8_concat(a, c1);
    encode_utf8_concat(p, a.push(c));
    assert(encode_utf8(c1) =~= seq![b[i]]);
    assert(encode_utf8(np) =~= b.take(i + 1));
    encode_utf8_valid_utf8(v);
    encode_utf8_valid_utf8(d);
    is_char_boundary_iff_is_leading_byte(b, i);
    if i + 1 == b.len() { is_char_boundary_start_end_of_seq(b); }
    else {
        is_char_boundary_iff_is_leading_byte(encode_utf8(d), n + 1);
        is_char_boundary_iff_is_leading_byte(b, i + 1);
    }
    if n == 0 { assert(encode_utf8(a).len() == 0); lemma_empty(a); }
    (np, rest)
}
pub proof fn lemma_empty(a: Seq<char>)
    requires encode_utf8(a).len() == 0,
    ensures a == Seq::<char>::empty(),
{
    let e = Seq::<char>::empty();
    is_ascii_chars_encode_utf8(e);
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(e);
    assert(encode_utf8(a) =~= encode_utf8(e));
}
pub proof fn lemma_esc_start(v: Seq<char>)
    ensures esc_inv(v, seq![], v, 0, 0),
{
    is_ascii_chars_encode_utf8(Seq::<char>::empty());
    encode_utf8_valid_utf8(v);
    assert(v =~= seq![] + v);
    assert(encode_utf8(seq![]) =~= encode_utf8(v).take(0));
    assert(encode_utf8(v).skip(0) =~= encode_utf8(v));
    is_char_boundary_start_end_of_seq(encode_utf8(v));
}
pub proof fn lemma_esc_end(v: Seq<char>, p: Seq<char>, d: Seq<char>, start: int)
    requires esc_inv(v, p, d, start, encode_utf8(v).len() as int),
    ensures
        is_char_boundary(encode_utf8(v), encode_utf8(v).len() as int),
        esc(v) == esc(p) + run_text(v, start, encode_utf8(v).len() as int),
        start == encode_utf8(v).len() ==> esc(v) == esc(p),
{
    let b = encode_utf8(v);
    encode_utf8_valid_utf8(v);
    is_char_boundary_start_end_of_seq(b);
    assert(b.skip(start) =~= b.subrange(start, b.len() as int));
    encode_utf8_decode_utf8(d);
    assert forall|k: int| 0 <= k < encode_utf8(d).len() implies !byte_needs_escape(#[trigger] encode_utf8(d)[k]) by { assert(b[start + k] == encode_utf8(d)[k]); }
    lemma_plain(d);
    lemma_esc_cat(p, d);
    if start == b.len() { lemma_empty(d); assert(esc(p) + d =~= esc(p)); }
}
pub proof fn lemma_nibbles(b: u8)
    ensures b >> 4 == b / 16, b & 0xf == b % 16, (b >> 4) < 16, (b & 0xf) < 16,
{ assert(b >> 4 == b / 16 && b & 0xf == b % 16 && (b >> 4) < 16 && (b & 0xf) < 16) by (bit_vector); }
}
pub use sl::*;
