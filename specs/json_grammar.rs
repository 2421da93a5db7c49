// ---------------------------------------------------------------------------
// Ghost definition of JSON texts (RFC 8259) and of the events they denote.
// Nothing here looks at the implementation.
// ---------------------------------------------------------------------------

pub open spec fn is_ws(b: u8) -> bool {
    b == 0x20 || b == 0x0a || b == 0x09 || b == 0x0d
}

pub open spec fn is_digit(b: u8) -> bool {
    0x30 <= b <= 0x39
}

/// The byte at i, or 0 past the end (0 starts no token and continues no literal).
pub open spec fn at(s: Seq<u8>, i: int) -> u8 {
    if 0 <= i < s.len() { s[i] } else { 0u8 }
}

pub open spec fn skip_ws(s: Seq<u8>, i: int) -> int
    decreases s.len() - i,
{
    if i < s.len() && is_ws(at(s, i)) { skip_ws(s, i + 1) } else { i }
}

// --- strings ---------------------------------------------------------------

pub open spec fn hex_digit(b: u8) -> Option<int> {
    if 0x30 <= b <= 0x39 { Some(b - 0x30) }
    else if 0x61 <= b <= 0x66 { Some(b - 0x61 + 10) }
    else if 0x41 <= b <= 0x46 { Some(b - 0x41 + 10) }
    else { None }
}

/// Value of the n hex digits starting at i.
pub open spec fn hex_val(s: Seq<u8>, i: int, n: int, acc: int) -> Option<int>
    decreases n,
{
    if n <= 0 { Some(acc) } else {
        match hex_digit(at(s, i)) {
            Some(d) => hex_val(s, i + 1, n - 1, acc * 16 + d),
            None => None,
        }
    }
}

#[verifier::opaque]
pub open spec fn hex4(s: Seq<u8>, i: int) -> Option<int> {
    hex_val(s, i, 4, 0)
}

pub open spec fn utf8(c: char) -> Seq<u8> {
    vstd::utf8::encode_utf8(seq![c])
}

/// The escape whose first byte after the backslash is at i: its character
/// and the position after it.
#[verifier::opaque]
pub open spec fn escape(s: Seq<u8>, i: int) -> Option<(char, int)> {
    let b = at(s, i);
    if b == 0x22 { Some(('"', i + 1)) }
    else if b == 0x5c { Some(('\\', i + 1)) }
    else if b == 0x2f { Some(('/', i + 1)) }
    else if b == 0x62 { Some(('\u{8}', i + 1)) }
    else if b == 0x66 { Some(('\u{c}', i + 1)) }
    else if b == 0x6e { Some(('\n', i + 1)) }
    else if b == 0x72 { Some(('\r', i + 1)) }
    else if b == 0x74 { Some(('\t', i + 1)) }
    else if b == 0x75 {
        match hex4(s, i + 1) {
            None => None,
            Some(h) =>
                if 0xdc00 <= h <= 0xdfff { None }
                else if 0xd800 <= h <= 0xdbff {
                    if at(s, i + 5) == 0x5c && at(s, i + 6) == 0x75 {
                        match hex4(s, i + 7) {
                            Some(l) if 0xdc00 <= l <= 0xdfff =>
                                Some((((((h - 0xd800) * 0x400 + (l - 0xdc00) + 0x10000) as u32) as char, i + 11))),
                            _ => None,
                        }
                    } else { None }
                } else { Some(((h as u32) as char, i + 5)) },
        }
    } else { None }
}

/// The string body starting at i, `acc` being the bytes decoded so far:
/// all decoded bytes and the position after the closing quote.
#[verifier::opaque]
pub open spec fn str_body(s: Seq<u8>, i: int, acc: Seq<u8>) -> Option<(Seq<u8>, int)>
    decreases s.len() - i,
{
    if i < 0 || i >= s.len() { None }
    else {
        let b = s[i];
        if b == 0x22 { Some((acc, i + 1)) }
        else if b == 0x5c {
            match escape(s, i + 1) {
                Some((c, e)) => if i < e <= s.len() { str_body(s, e, acc + utf8(c)) } else { None },
                None => None,
            }
        }
        else if b < 0x20 { None }
        else { str_body(s, i + 1, acc.push(b)) }
    }
}

/// The string literal whose opening quote is just before i.
pub open spec fn str_lit(s: Seq<u8>, i: int) -> Option<(Seq<char>, int)> {
    match str_body(s, i, seq![]) {
        Some((b, e)) => if vstd::utf8::valid_utf8(b) { Some((vstd::utf8::decode_utf8(b), e)) } else { None },
        None => None,
    }
}

/// The rest of a string literal whose raw text s[a..i] was not yet copied to buf.
#[verifier::opaque]
pub open spec fn str_at(s: Seq<u8>, a: int, i: int, buf: Seq<u8>) -> Option<(Seq<u8>, int)> {
    str_body(s, i, buf + s.subrange(a, i))
}

// --- numbers ---------------------------------------------------------------

/// First position at or after i that holds no digit.
pub open spec fn digits_end(s: Seq<u8>, i: int) -> int
    decreases s.len() - i,
{
    if i < s.len() && is_digit(at(s, i)) { digits_end(s, i + 1) } else { i }
}

/// Number written by the digits s[i..j], after the digits of `acc`.
pub open spec fn dec_val(s: Seq<u8>, i: int, j: int, acc: int) -> int
    decreases j - i,
{
    if i >= j { acc } else { dec_val(s, i + 1, j, acc * 10 + (at(s, i) - 0x30)) }
}

/// Up to 64 bits of the digits s[i..j] appended to acc: digits are taken while
/// they fit; returns the significand and the number of digits taken.
pub open spec fn take_digits(s: Seq<u8>, i: int, j: int, acc: int, n: int) -> (int, int)
    decreases j - i,
{
    if i >= j { (acc, n) }
    else if acc * 10 + (at(s, i) - 0x30) > u64::MAX { (acc, n) }
    else { take_digits(s, i + 1, j, acc * 10 + (at(s, i) - 0x30), n + 1) }
}

pub open spec fn sat32(x: int) -> int {
    if x > i32::MAX { i32::MAX as int } else if x < i32::MIN { i32::MIN as int } else { x }
}

pub open spec fn is_exp(b: u8) -> bool { b == 0x65 || b == 0x45 }

/// sig * 10^x with the sign given, if that is a finite double.
pub open spec fn scaled(neg: bool, sig: int, x: int) -> Option<Ev> {
    match scale(fcast(sig as u64), x) {
        Some(f) => Some(Ev::F64(fsign(!neg, f))),
        None => None,
    }
}

pub open spec fn with_end(v: Option<Ev>, e: int) -> Option<(Ev, int)> {
    match v { Some(v) => Some((v, e)), None => None }
}

/// `( "e" / "E" ) [ "+" / "-" ] 1*DIGIT` at c, after digits `sig` with decimal exponent x.
#[verifier::opaque]
pub open spec fn num_exp(s: Seq<u8>, neg: bool, sig: int, x: int, c: int) -> Option<(Ev, int)> {
    let exp_neg = at(s, c + 1) == 0x2d;
    let d = if exp_neg || at(s, c + 1) == 0x2b { c + 2 } else { c + 1 };
    let e = digits_end(s, d);
    if e == d { None }
    else {
        let v = dec_val(s, d, e, 0);
        if v > i32::MAX {
            // far beyond any double
            if sig != 0 && !exp_neg { None } else { Some((Ev::F64(fsign(!neg, fzero())), e)) }
        } else {
            with_end(scaled(neg, sig, sat32(if exp_neg { x - v } else { x + v })), e)
        }
    }
}

/// `"." 1*DIGIT [ exp ]` at b.
#[verifier::opaque]
pub open spec fn num_frac(s: Seq<u8>, neg: bool, sig: int, x: int, b: int) -> Option<(Ev, int)> {
    let c = digits_end(s, b + 1);
    if c == b + 1 { None }
    else {
        let u = take_digits(s, b + 1, c, sig, 0);
        let y = sat32(x - u.1);
        if is_exp(at(s, c)) { num_exp(s, neg, u.0, y, c) }
        else { with_end(scaled(neg, u.0, y), c) }
    }
}

/// What follows the integer digits, at b: `[ frac ] [ exp ]`.
#[verifier::opaque]
pub open spec fn num_tail(s: Seq<u8>, neg: bool, sig: int, x: int, b: int) -> Option<(Ev, int)> {
    if at(s, b) == 0x2e { num_frac(s, neg, sig, x, b) }
    else if is_exp(at(s, b)) { num_exp(s, neg, sig, x, b) }
    else { with_end(scaled(neg, sig, x), b) }
}

/// `int [ frac ] [ exp ]` with its first digit at a: the value delivered and
/// the end of the literal.  Integers from -2^63 to 2^64-1 are delivered as
/// they are, everything else as a double.
#[verifier::opaque]
pub open spec fn num_at(s: Seq<u8>, neg: bool, a: int) -> Option<(Ev, int)> {
    if !is_digit(at(s, a)) { None }
    else if at(s, a) == 0x30 && is_digit(at(s, a + 1)) { None }
    else {
        let b = digits_end(s, a + 1);
        let v = dec_val(s, a, b, 0);
        let t = take_digits(s, a, b, 0, 0);
        if at(s, b) == 0x2e || is_exp(at(s, b)) || v > u64::MAX { num_tail(s, neg, t.0, sat32(b - a - t.1), b) }
        else { Some((plain_int(neg, v), b)) }
    }
}

pub open spec fn plain_int(neg: bool, v: int) -> Ev {
    if !neg { Ev::U64(v as u64) }
    else if -v >= i64::MIN { Ev::I64((-v) as i64) }
    else { Ev::F64(fneg(fcast(v as u64))) }
}

/// `number = [ "-" ] int [ frac ] [ exp ]` at i.
pub open spec fn num(s: Seq<u8>, i: int) -> Option<(Ev, int)> {
    if at(s, i) == 0x2d { num_at(s, true, i + 1) } else { num_at(s, false, i) }
}

// --- tokens ----------------------------------------------------------------

pub enum Tok {
    Scalar(Ev),
    SeqStart,
    SeqEnd,
    MapStart,
    MapEnd,
    Comma,
    Colon,
}

pub open spec fn has(s: Seq<u8>, i: int, w: Seq<u8>) -> bool {
    i + w.len() <= s.len() && (forall|k: int| 0 <= k < w.len() ==> at(s, i + k) == #[trigger] w[k])
}

/// The token at or after i (whitespace skipped) and the position after it.
#[verifier::opaque]
pub open spec fn lex(s: Seq<u8>, i0: int) -> Option<(Tok, int)> {
    let i = skip_ws(s, i0);
    let b = at(s, i);
    if i < 0 || i >= s.len() { None }
    else if b == 0x22 {
        match str_lit(s, i + 1) { Some((t, e)) => Some((Tok::Scalar(Ev::Str(t)), e)), None => None }
    }
    else if b == 0x2d || is_digit(b) {
        match num(s, i) { Some((v, e)) => Some((Tok::Scalar(v), e)), None => None }
    }
    else if b == 0x7b { Some((Tok::MapStart, i + 1)) }
    else if b == 0x7d { Some((Tok::MapEnd, i + 1)) }
    else if b == 0x5b { Some((Tok::SeqStart, i + 1)) }
    else if b == 0x5d { Some((Tok::SeqEnd, i + 1)) }
    else if b == 0x2c { Some((Tok::Comma, i + 1)) }
    else if b == 0x3a { Some((Tok::Colon, i + 1)) }
    else if b == 0x6e && at(s, i + 1) == 0x75 && at(s, i + 2) == 0x6c && at(s, i + 3) == 0x6c { Some((Tok::Scalar(Ev::Null), i + 4)) }
    else if b == 0x74 && at(s, i + 1) == 0x72 && at(s, i + 2) == 0x75 && at(s, i + 3) == 0x65 { Some((Tok::Scalar(Ev::Bool(true)), i + 4)) }
    else if b == 0x66 && at(s, i + 1) == 0x61 && at(s, i + 2) == 0x6c && at(s, i + 3) == 0x73 && at(s, i + 4) == 0x65 { Some((Tok::Scalar(Ev::Bool(false)), i + 5)) }
    else { None }
}

// --- documents -------------------------------------------------------------
// Each function appends the events of the construct to acc and returns the
// position after it.

pub open spec fn p_value(s: Seq<u8>, i: int, acc: Seq<Ev>) -> Option<(Seq<Ev>, int)>
    decreases s.len() - i, 0int,
{
    match lex(s, i) {
        Some((t, e)) => if e <= i || e > s.len() { None } else {
            match t {
                Tok::Scalar(v) => Some((acc.push(v), e)),
                Tok::SeqStart => p_elements(s, e, true, acc.push(Ev::SeqStart)),
                Tok::MapStart => p_members(s, e, true, acc.push(Ev::MapStart)),
                _ => None,
            }
        },
        None => None,
    }
}

/// The rest of an array; `first`: directly after its opening bracket.
pub open spec fn p_elements(s: Seq<u8>, i: int, first: bool, acc: Seq<Ev>) -> Option<(Seq<Ev>, int)>
    decreases s.len() - i, 1int,
{
    match lex(s, i) {
        Some((t, e)) => if e <= i || e > s.len() { None } else {
            match t {
                Tok::SeqEnd => Some((acc.push(Ev::SeqEnd), e)),
                _ => if first {
                    match p_value(s, i, acc) {
                        Some((a, j)) => if i < j <= s.len() { p_elements(s, j, false, a) } else { None },
                        None => None,
                    }
                } else if t is Comma {
                    match p_value(s, e, acc) {
                        Some((a, j)) => if i < j <= s.len() { p_elements(s, j, false, a) } else { None },
                        None => None,
                    }
                } else { None },
            }
        },
        None => None,
    }
}

/// `key ":" value rest-of-object`
pub open spec fn p_member(s: Seq<u8>, i: int, acc: Seq<Ev>) -> Option<(Seq<Ev>, int)>
    decreases s.len() - i, 1int,
{
    match lex(s, i) {
        Some((t, e)) => if e <= i || e > s.len() { None } else {
            match t {
                Tok::Scalar(Ev::Str(k)) => match lex(s, e) {
                    Some((Tok::Colon, e2)) => if e2 <= e || e2 > s.len() { None } else {
                        match p_value(s, e2, acc.push(Ev::Str(k))) {
                            Some((a, j)) => if i < j <= s.len() { p_members(s, j, false, a) } else { None },
                            None => None,
                        }
                    },
                    _ => None,
                },
                _ => None,
            }
        },
        None => None,
    }
}

/// The rest of an object; `first`: directly after its opening brace.
pub open spec fn p_members(s: Seq<u8>, i: int, first: bool, acc: Seq<Ev>) -> Option<(Seq<Ev>, int)>
    decreases s.len() - i, 2int,
{
    match lex(s, i) {
        Some((t, e)) => if e <= i || e > s.len() { None } else {
            match t {
                Tok::MapEnd => Some((acc.push(Ev::MapEnd), e)),
                _ => if first { p_member(s, i, acc) }
                     else if t is Comma { p_member(s, e, acc) }
                     else { None },
            }
        },
        None => None,
    }
}

/// The JSON text that fills s from i to its end: its events.
pub open spec fn doc(s: Seq<u8>, i: int, acc: Seq<Ev>) -> Option<Seq<Ev>> {
    match p_value(s, i, acc) {
        Some((a, j)) => if skip_ws(s, j) >= s.len() { Some(a) } else { None },
        None => None,
    }
}

// --- what is left to parse, given the open containers ------------------------

pub enum Open { Map, Seq }

/// A value has just ended at i inside the containers `st`.
pub open spec fn rest(s: Seq<u8>, st: Seq<Open>, i: int, acc: Seq<Ev>) -> Option<Seq<Ev>>
    decreases st.len(),
{
    if st.len() == 0 {
        if skip_ws(s, i) >= s.len() { Some(acc) } else { None }
    } else {
        match (match st.last() {
            Open::Map => p_members(s, i, false, acc),
            Open::Seq => p_elements(s, i, false, acc),
        }) { Some((a, j)) => rest(s, st.drop_last(), j, a), None => None }
    }
}

pub open spec fn rest_of(s: Seq<u8>, st: Seq<Open>, r: Option<(Seq<Ev>, int)>) -> Option<Seq<Ev>> {
    match r { Some((a, j)) => rest(s, st, j, a), None => None }
}
