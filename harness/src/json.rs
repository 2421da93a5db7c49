//! JSON: reference parser (written from RFC 8259) and the checks C01 - C08.
use crate::ctx::*;
use crate::model::*;
use deser_json::Deserializer;

// --- reference parser --------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Null,
    Bool(bool),
    Str(String),
    /// sign, integer digits, fraction digits, exponent text
    Num(String),
    MapStart,
    MapEnd,
    SeqStart,
    SeqEnd,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    out: Vec<R>,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\r' | b'\n') {
            self.i += 1;
        }
    }
    fn at(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn value(&mut self) -> Option<()> {
        self.ws();
        match self.at()? {
            b'{' => {
                self.i += 1;
                self.out.push(R::MapStart);
                self.ws();
                if self.at()? == b'}' {
                    self.i += 1;
                    self.out.push(R::MapEnd);
                    return Some(());
                }
                loop {
                    self.ws();
                    if self.at()? != b'"' {
                        return None;
                    }
                    self.string()?;
                    self.ws();
                    if self.at()? != b':' {
                        return None;
                    }
                    self.i += 1;
                    self.value()?;
                    self.ws();
                    match self.at()? {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            self.out.push(R::MapEnd);
                            return Some(());
                        }
                        _ => return None,
                    }
                }
            }
            b'[' => {
                self.i += 1;
                self.out.push(R::SeqStart);
                self.ws();
                if self.at()? == b']' {
                    self.i += 1;
                    self.out.push(R::SeqEnd);
                    return Some(());
                }
                loop {
                    self.value()?;
                    self.ws();
                    match self.at()? {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            self.out.push(R::SeqEnd);
                            return Some(());
                        }
                        _ => return None,
                    }
                }
            }
            b'"' => self.string(),
            b'n' => self.word(b"null", R::Null),
            b't' => self.word(b"true", R::Bool(true)),
            b'f' => self.word(b"false", R::Bool(false)),
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        }
    }
    fn word(&mut self, w: &[u8], r: R) -> Option<()> {
        if self.s[self.i..].starts_with(w) {
            self.i += w.len();
            self.out.push(r);
            Some(())
        } else {
            None
        }
    }
    fn digits(&mut self) -> usize {
        let a = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        self.i - a
    }
    fn number(&mut self) -> Option<()> {
        let a = self.i;
        if self.at() == Some(b'-') {
            self.i += 1;
        }
        let d = self.i;
        let n = self.digits();
        if n == 0 || (n > 1 && self.s[d] == b'0') {
            return None;
        }
        if self.at() == Some(b'.') {
            self.i += 1;
            if self.digits() == 0 {
                return None;
            }
        }
        if matches!(self.at(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.at(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            if self.digits() == 0 {
                return None;
            }
        }
        self.out.push(R::Num(String::from_utf8(self.s[a..self.i].to_vec()).unwrap()));
        Some(())
    }
    fn hex4(&mut self) -> Option<u32> {
        if self.i + 4 > self.s.len() {
            return None;
        }
        let mut v = 0;
        for k in 0..4 {
            v = v * 16 + (self.s[self.i + k] as char).to_digit(16)?;
        }
        self.i += 4;
        Some(v)
    }
    fn string(&mut self) -> Option<()> {
        self.i += 1;
        let mut b: Vec<u8> = vec![];
        loop {
            let c = self.at()?;
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = self.at()?;
                    self.i += 1;
                    let ch = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let h = self.hex4()?;
                            if (0xd800..0xdc00).contains(&h) {
                                if self.at()? != b'\\' {
                                    return None;
                                }
                                self.i += 1;
                                if self.at()? != b'u' {
                                    return None;
                                }
                                self.i += 1;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return None;
                                }
                                char::from_u32(0x10000 + (h - 0xd800) * 0x400 + (l - 0xdc00))?
                            } else {
                                char::from_u32(h)?
                            }
                        }
                        _ => return None,
                    };
                    let mut t = [0; 4];
                    b.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
                }
                0..=0x1f => return None,
                c => b.push(c),
            }
        }
        self.out.push(R::Str(String::from_utf8(b).ok()?));
        Some(())
    }
}
/// The events of a JSON text, None when it is not one.
pub fn reference(s: &[u8]) -> Option<Vec<R>> {
    let mut p = P { s, i: 0, out: vec![] };
    p.value()?;
    p.ws();
    if p.i == s.len() {
        Some(p.out)
    } else {
        None
    }
}

// --- numbers -------------------------------------------------------------------
const MAXF: f64 = f64::MAX * (1.0 - 1e-12);

fn is_int(t: &str) -> bool {
    !t.contains(['.', 'e', 'E'])
}
/// Mantissa digits without the point and combined decimal exponent.
fn parts(t: &str) -> (String, i128) {
    let t = t.trim_start_matches('-');
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], t[i + 1..].parse::<i128>().unwrap_or(if t[i + 1..].starts_with('-') { -(1i128 << 100) } else { 1i128 << 100 })),
        None => (t, 0),
    };
    let (a, b) = match m.find('.') {
        Some(i) => (&m[..i], &m[i + 1..]),
        None => (m, ""),
    };
    (format!("{}{}", a, b), e - b.len() as i128)
}
/// Too close to the overflow limit to tell.
fn ambiguous(t: &str) -> bool {
    let v: f64 = t.parse().unwrap();
    v.abs() >= MAXF && {
        let (d, e) = parts(t);
        let d = d.trim_start_matches('0');
        // magnitude 10^(len + e): 308.25 is the limit
        let mag = d.len() as i128 + e;
        mag == 309
            && (v.is_finite() || {
                // within 1e-12 above the limit
                let lead: f64 = format!("0.{}", &d[..d.len().min(18)]).parse().unwrap();
                lead < 0.179769313486232 * (1.0 + 1e-11)
            })
    }
}
fn check_num(t: &str, got: &Ev) -> Result<(), String> {
    if is_int(t) {
        if let Ok(v) = t.parse::<i128>() {
            if v >= 0 && v <= u64::MAX as i128 && !t.starts_with('-') {
                return match got {
                    Ev::U64(x) if *x as i128 == v => Ok(()),
                    Ev::I64(x) if *x as i128 == v => Ok(()),
                    g => Err(format!("literal {}: delivered {:?}", t, g)),
                };
            }
            if v >= i64::MIN as i128 && v <= 0 {
                return match got {
                    Ev::I64(x) if *x as i128 == v => Ok(()),
                    g => Err(format!("literal {}: delivered {:?}", t, g)),
                };
            }
        }
    }
    let want: f64 = t.parse().unwrap();
    let g = match got {
        Ev::F64(g) => *g,
        g => return Err(format!("literal {}: delivered {:?}, expected a double", t, g)),
    };
    if !g.is_finite() {
        return Err(format!("literal {}: delivered {:?}", t, g));
    }
    if g.is_sign_negative() != t.starts_with('-') {
        return Err(format!("literal {}: sign of {:?}", t, g));
    }
    let (d, e) = parts(t);
    let d = d.trim_start_matches('0');
    let exact = d.len() <= 16 && d.parse::<u64>().unwrap_or(0) <= 1 << 53 && (-22..=22).contains(&e);
    if exact && g.to_bits() != want.to_bits() {
        return Err(format!("literal {}: delivered {:e}, correctly rounded is {:e}", t, g, want));
    }
    let tol = want.abs() * 1e-13 + 4e-323;
    if (g - want).abs() > tol {
        return Err(format!("literal {}: delivered {:e}, denotes {:e}", t, g, want));
    }
    Ok(())
}
/// Some(true): must be accepted; Some(false): must be refused.
fn num_ok(t: &str) -> Option<bool> {
    if is_int(t) && t.parse::<i128>().is_ok() {
        return Some(true);
    }
    if ambiguous(t) {
        return None;
    }
    Some(t.parse::<f64>().unwrap().is_finite())
}

// --- comparison -------------------------------------------------------------------
pub fn parse(s: &[u8]) -> (Result<(), String>, Vec<Ev>) {
    take_log();
    let r = Deserializer::new(s).deserialize::<Rec>();
    (r.map(|_| ()).map_err(|e| format!("{:?}", e)), take_log())
}

fn agree(s: &[u8]) -> Result<(), String> {
    let (r, log) = parse(s);
    match reference(s) {
        None => {
            if r.is_ok() {
                return Err(format!("accepted although it is no JSON text; delivered {:?}", log));
            }
        }
        Some(evs) => {
            let mut must = true;
            for e in &evs {
                if let R::Num(t) = e {
                    match num_ok(t) {
                        Some(true) => {}
                        Some(false) => {
                            return if r.is_err() { Ok(()) } else { Err(format!("number {} exceeds the doubles but was accepted as {:?}", t, log)) };
                        }
                        None => must = false,
                    }
                }
            }
            if let Err(e) = r {
                return if must { Err(format!("refused although it is JSON: {}", e)) } else { Ok(()) };
            }
            if evs.len() != log.len() {
                return Err(format!("delivered {:?}, the document is {:?}", log, evs));
            }
            for (w, g) in evs.iter().zip(&log) {
                let ok = match (w, g) {
                    (R::Null, Ev::Null) | (R::MapStart, Ev::MapStart) | (R::MapEnd, Ev::MapEnd) | (R::SeqStart, Ev::SeqStart) | (R::SeqEnd, Ev::SeqEnd) => true,
                    (R::Bool(a), Ev::Bool(b)) => a == b,
                    (R::Str(a), Ev::Str(b)) => a == b,
                    (R::Num(t), g) => {
                        check_num(t, g)?;
                        true
                    }
                    _ => false,
                };
                if !ok {
                    return Err(format!("delivered {:?}, the document is {:?}", log, evs));
                }
            }
        }
    }
    Ok(())
}
fn agree_case(c: &mut Ctx, s: &[u8]) {
    c.case(|| show(s), s, reference(s).is_some(), || agree(s));
}
/// For C01 only the absence of panics, wild reads and endless loops counts;
/// a value must come out of a success.
fn total_case(c: &mut Ctx, s: &[u8]) {
    c.case(
        || show(s),
        s,
        s.len() > 1,
        || {
            let _ = parse(s);
            let _ = Deserializer::new(s).deserialize::<String>();
            let _ = Deserializer::new(s).deserialize::<Vec<f64>>();
            let mut d = Deserializer::new(s);
            let _ = d.deserialize::<Rec>();
            let _ = d.deserialize::<Rec>();
            let _ = d.deserialize::<Rec>();
            take_log();
            Ok(())
        },
    );
}

/// Calls f with every sequence of up to n pieces.
fn words(pieces: &[&[u8]], n: usize, f: &mut dyn FnMut(&[u8]) -> bool) {
    fn go(pieces: &[&[u8]], n: usize, cur: &mut Vec<u8>, f: &mut dyn FnMut(&[u8]) -> bool) -> bool {
        if !f(cur) {
            return false;
        }
        if n > 0 {
            for p in pieces {
                let l = cur.len();
                cur.extend_from_slice(p);
                let r = go(pieces, n - 1, cur, f);
                cur.truncate(l);
                if !r {
                    return false;
                }
            }
        }
        true
    }
    go(pieces, n, &mut vec![], f);
}

const STRUCT: &[&[u8]] = &[b"{", b"}", b"[", b"]", b",", b":", b"\"a\"", b"1"];
const MIXED: &[&[u8]] = &[
    b"{", b"}", b"[", b"]", b",", b":", b"\"", b"\\", b"u", b"0", b"1", b"-", b".", b"e", b"+", b" ", b"n", b"null", b"true", b"\x00", b"\xc3",
];
const NUMS: &[&[u8]] = &[b"0", b"1", b"9", b"-", b".", b"e", b"E", b"+"];

fn random_text(r: &mut Rng, depth: usize) -> String {
    let ws = |r: &mut Rng| (0..r.below(3)).map(|_| *r.pick(&[' ', '\n', '\t', '\r'])).collect::<String>();
    let a = ws(r);
    let b = ws(r);
    let core = match r.below(if depth == 0 { 6 } else { 10 }) {
        0 => r.pick(&["null", "true", "false"]).to_string(),
        1 | 2 => random_num(r),
        3..=5 => random_str(r),
        6 | 7 => {
            let n = r.below(4);
            let xs: Vec<String> = (0..n).map(|_| random_text(r, depth - 1)).collect();
            if n == 0 { format!("[{}]", ws(r)) } else { format!("[{}]", xs.join(",")) }
        }
        _ => {
            let n = r.below(4);
            let xs: Vec<String> = (0..n).map(|_| format!("{}{}{}:{}", ws(r), random_str(r), ws(r), random_text(r, depth - 1))).collect();
            if n == 0 { format!("{{{}}}", ws(r)) } else { format!("{{{}}}", xs.join(",")) }
        }
    };
    format!("{}{}{}", a, core, b)
}
fn random_num(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.below(3) == 0 {
        s.push('-');
    }
    let digs = |r: &mut Rng, n: usize| (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    let n = *r.pick(&[1usize, 1, 2, 3, 5, 10, 16, 17, 18, 19, 19, 20, 20, 21, 25, 40, 330]);
    if r.below(6) == 0 {
        s.push('0');
    } else {
        s.push((b'1' + r.below(9) as u8) as char);
        s += &digs(r, n - 1);
    }
    if r.below(2) == 0 {
        s.push('.');
        let n = *r.pick(&[1usize, 1, 2, 3, 5, 10, 17, 19, 20, 25, 60, 340]);
        if r.below(3) == 0 {
            s += &"0".repeat(n - 1);
            s.push('7');
        } else {
            s += &digs(r, n);
        }
    }
    if r.below(2) == 0 {
        s.push(*r.pick(&['e', 'E']));
        s += r.pick(&["", "+", "-"]);
        let m = *r.pick(&[10u64, 30, 330, 400, 700, 5000]);
        let mut x = (r.next() % m).to_string();
        if r.below(12) == 0 {
            x = r.pick(&["2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "21474836470", "99999999999999999999", "0000000000000000000001", "00", "007"]).to_string();
        }
        s += &x;
    }
    s
}
fn random_char(r: &mut Rng) -> char {
    loop {
        let m = *r.pick(&[0x20u32, 0x80, 0x80, 0x80, 0x800, 0x3000, 0x10000, 0x110000]);
        if let Some(c) = char::from_u32(r.next() as u32 % m) {
            return c;
        }
    }
}
fn random_str(r: &mut Rng) -> String {
    let mut s = String::from("\"");
    for _ in 0..r.below(8) {
        match r.below(5) {
            0 => s += r.pick(&["\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"]),
            1 => {
                let c = random_char(r);
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if r.below(2) == 0 {
                        s += &format!("\\u{:04x}", u)
                    } else {
                        s += &format!("\\u{:04X}", u)
                    }
                }
            }
            _ => {
                let c = random_char(r);
                if c >= ' ' && c != '"' && c != '\\' {
                    s.push(c)
                }
            }
        }
    }
    s.push('"');
    s
}

fn mutate(r: &mut Rng, s: &[u8]) -> Vec<u8> {
    let mut b = s.to_vec();
    for _ in 0..1 + r.below(3) {
        let n = b.len();
        match r.below(6) {
            0 if n > 0 => {
                b.remove(r.below(n));
            }
            1 => b.insert(r.below(n + 1), *r.pick(b"{}[],:\"\\u0189-+.eEntf \x00\x1f\x7f\x80\xc3\xff")),
            2 if n > 0 => {
                let i = r.below(n);
                b[i] = *r.pick(b"{}[],:\"\\u0189-+.eEntf \x00\x1f\x7f\x80\xc3\xff");
            }
            3 if n > 0 => b.truncate(r.below(n)),
            4 if n > 1 => {
                let i = r.below(n - 1);
                b.swap(i, i + 1);
            }
            _ if n > 0 => {
                let i = r.below(n);
                let x = b[i];
                b.insert(i, x);
            }
            _ => {}
        }
    }
    b
}

pub fn c01(c: &mut Ctx) {
    c.rule("all sequences of JSON pieces up to a length, number texts over +-.eE019 up to a length, every prefix and random mutations of random JSON texts, escapes, extreme exponents, deep nesting; non-trivial: at least two bytes");
    let n = if c.thorough { 5 } else { 4 };
    words(MIXED, n, &mut |s| {
        total_case(c, s);
        !c.done()
    });
    words(STRUCT, if c.thorough { 7 } else { 6 }, &mut |s| {
        total_case(c, s);
        !c.done()
    });
    for s in num_corpus() {
        total_case(c, s.as_bytes());
        total_case(c, format!("[{}]", s).as_bytes());
    }
    words(NUMS, if c.thorough { 7 } else { 6 }, &mut |s| {
        total_case(c, s);
        !c.done()
    });
    for b in 0..=255u8 {
        for t in [&b"\""[..], b"\"\\", b"\"\\u12", b"\"a\\n", b"[", b"{\"a\":", b"1", b"-", b"1.", b"1e", b"nul", b"\"\\ud83d\\"] {
            for u in [&b""[..], b"\"", b"]", b"x"] {
                let s = [t, &[b], u].concat();
                total_case(c, &s);
            }
        }
    }
    for d in [10usize, 1000, 100_000] {
        for (o, m, e) in [("[", "", "]"), ("{\"a\":", "1", "}"), ("[", "1", "]"), ("[{\"a\":", "null", "}]")] {
            total_case(c, (o.repeat(d) + m + &e.repeat(d)).as_bytes());
            total_case(c, o.repeat(d).as_bytes());
            total_case(c, (o.repeat(d) + m + &e.repeat(d + 1)).as_bytes());
        }
    }
    for n in [1usize, 17, 18, 19, 20, 21, 100, 400, 100_000] {
        for d in ["0", "1", "9"] {
            for t in ["{}", "1{}", "0.{}", "1{}.5", "1e{}", "1e-{}", "0e{}", "-{}", "1{}e5", "0.{}e-7", "0.{}1e400", "\"{}\""] {
                total_case(c, t.replace("{}", &d.repeat(n)).as_bytes());
            }
        }
    }
    let k = if c.thorough { 400_000 } else { 60_000 };
    for i in 0..k {
        let t = random_text(&mut c.rng, 3).into_bytes();
        if i % 50 == 0 && t.len() < 400 {
            for j in 0..t.len() {
                total_case(c, &t[..j]);
            }
        }
        let t = mutate(&mut c.rng, &t);
        total_case(c, &t);
        if c.done() {
            return;
        }
    }
}

pub fn c02(c: &mut Ctx) {
    c.rule("all sequences of structural pieces up to a length, random JSON texts and their mutations, every byte around every token, deep nesting, against a recursive-descent RFC 8259 parser; non-trivial: JSON texts");
    words(STRUCT, if c.thorough { 8 } else { 7 }, &mut |s| {
        agree_case(c, s);
        !c.done()
    });
    words(&[b"{", b"}", b"[", b"]", b",", b":", b"\"\"", b"null", b" ", b"-2", b"true", b"\"k\":"], if c.thorough { 6 } else { 5 }, &mut |s| {
        agree_case(c, s);
        !c.done()
    });
    words(MIXED, if c.thorough { 5 } else { 4 }, &mut |s| {
        agree_case(c, s);
        !c.done()
    });
    words(&[b"n", b"u", b"l", b"t", b"r", b"e", b"f", b"a", b"s"], 5, &mut |s| {
        if s.len() >= 3 {
            agree_case(c, s);
        }
        !c.done()
    });
    for b in 0..=255u8 {
        for (t, u) in [
            ("", ""), ("", "1"), ("1", ""), ("1", "2"), ("[", "]"), ("[1", "]"), ("[", "1]"), ("[1", "2]"), ("[1,", "2]"), ("[1", ",2]"), ("{", "}"), ("{", "\"a\":1}"), ("{\"a\"", ":1}"), ("{\"a\":", "1}"), ("{\"a\":1", "}"),
            ("{\"a\":1", ",\"b\":2}"), ("{\"a\":1,", "\"b\":2}"), ("{\"a\":1", "\"b\":2}"), ("null", ""), ("true", ""), ("[[]", "]"), ("[{}", "]"), ("\"x\"", ""), ("", "null"), ("{\"a\"", "1}"), ("nul", ""), ("fals", ""),
            ("tru", ""), ("n", "ll"), ("t", "ue"), ("f", "lse"), ("nu", "l"), ("tr", "e"), ("fa", "se"), ("fal", "e"),
        ] {
            let s = [t.as_bytes(), &[b], u.as_bytes()].concat();
            agree_case(c, &s);
        }
    }
    for d in [10usize, 1000, 20_000] {
        for (o, m, e) in [("[", "", "]"), ("{\"a\":", "1", "}"), ("[", "1", "]"), ("[{\"a\":", "null", "}]"), ("[1,", "2", "]"), ("{\"a\":1,\"b\":", "[]", "}")] {
            agree_case(c, (o.repeat(d) + m + &e.repeat(d)).as_bytes());
            agree_case(c, (o.repeat(d) + m + &e.repeat(d - 1)).as_bytes());
            agree_case(c, (o.repeat(d) + m + &e.repeat(d + 1)).as_bytes());
        }
    }
    for n in [0usize, 1, 2, 3, 255, 256, 257, 1000, 70_000] {
        let xs = vec!["1"; n].join(",");
        agree_case(c, format!("[{}]", xs).as_bytes());
        agree_case(c, format!("[{},]", xs).as_bytes());
        let xs = (0..n).map(|i| format!("\"{}\":{}", i, i)).collect::<Vec<_>>().join(",");
        agree_case(c, format!("{{{}}}", xs).as_bytes());
        agree_case(c, format!("{{{},}}", xs).as_bytes());
    }
    let k = if c.thorough { 300_000 } else { 50_000 };
    for _ in 0..k {
        let t = random_text(&mut c.rng, 4).into_bytes();
        agree_case(c, &t);
        let t = mutate(&mut c.rng, &t);
        agree_case(c, &t);
        if c.done() {
            return;
        }
    }
}

pub fn c03(c: &mut Ctx) {
    c.rule("every escape letter, every \\uXXXX in several spellings, surrogate pairs, every one and two byte body, invalid UTF-8 around escapes, truncations, random strings, as value and as key; non-trivial: accepted literals");
    let mut both = |c: &mut Ctx, body: &[u8]| {
        let s = [b"\"", body, b"\""].concat();
        agree_case(c, &s);
        let s = [b"{\"", body, b"\":[\"", body, b"\"]}"].concat();
        agree_case(c, &s);
    };
    both(c, b"");
    for b in 0..=255u8 {
        both(c, &[b]);
        both(c, &[b'\\', b]);
        both(c, &[b'a', b, b'b']);
        both(c, &[b'\\', b'n', b, b'b']);
        both(c, &[b'x', b'\\', b, b'0', b'0', b'4', b'1', b'y']);
        for p in 0..4 {
            let mut h = *b"\\u00e9";
            h[2 + p] = b;
            both(c, &h);
            let mut h = *b"\\ud83d\\ude00";
            h[2 + p] = b;
            both(c, &h);
            let mut h = *b"\\ud83d\\ude00";
            h[8 + p] = b;
            both(c, &h);
        }
        let mut h = *b"\\ud83d\\ude00";
        h[6] = b;
        both(c, &h);
        let mut h = *b"\\ud83d\\ude00";
        h[7] = b;
        both(c, &h);
        for d in 0..=255u8 {
            both(c, &[b, d]);
        }
    }
    for h in 0..=0xffffu32 {
        let s = format!("\"\\u{:04x}\"", h);
        agree_case(c, s.as_bytes());
        let s = format!("\"z\\u{:04X}\\n\"", h);
        agree_case(c, s.as_bytes());
        if (0xd800..0xe000).contains(&h) {
            for l in ["\\udc00", "\\udfff", "\\ud800", "\\uDBFF", "\\u0041", "\\ue000", "x", ""] {
                agree_case(c, format!("\"\\u{:04x}{}\"", h, l).as_bytes());
            }
            for o in ["\\ud800", "\\udbff", "\\uD83D"] {
                agree_case(c, format!("\"{}\\u{:04X}\"", o, h).as_bytes());
            }
        }
    }
    // three and four byte UTF-8 and near misses, before / after an escape
    for a in [0xe0u8, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xc2, 0xdf, 0xc0, 0xc1] {
        for b in [0x7fu8, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0] {
            for d in [0x7fu8, 0x80, 0xbf, 0xc0] {
                for e in [0x7fu8, 0x80, 0xbf, 0xc0] {
                    for body in [vec![a, b, d, e], vec![a, b, d], [&b"\\t"[..], &[a, b, d]].concat(), [&b"\\t"[..], &[a, b, d, e]].concat(), [&[a, b, d][..], b"\\\\"].concat(), [&[a][..], b"\\n", &[b, d]].concat(), [&[a, b][..], b"\\u0041", &[d, e]].concat()] {
                        both(c, &body);
                    }
                }
            }
        }
    }
    for t in ["\"\\ud83d\\ude00\\n\\u0041xyz\"", "\"abc\\\\\"", "[\"a\\\"b\"]"] {
        for j in 0..t.len() {
            agree_case(c, &t.as_bytes()[..j]);
        }
    }
    // several strings in one document share the scratch buffer
    let k = if c.thorough { 300_000 } else { 60_000 };
    for _ in 0..k {
        let n = 1 + c.rng.below(4);
        let t: Vec<String> = (0..n).map(|_| random_str(&mut c.rng)).collect();
        let t = if c.rng.below(2) == 0 { format!("[{}]", t.join(",")) } else { format!("{{{}}}", t.iter().map(|x| format!("{}:{}", x, x)).collect::<Vec<_>>().join(",")) };
        agree_case(c, t.as_bytes());
        let t = mutate(&mut c.rng, t.as_bytes());
        agree_case(c, &t);
        if c.done() {
            return;
        }
    }
    for n in [1usize, 63, 64, 65, 1000, 100_000] {
        for u in ["a", "é", "\\n", "\\u00e9", "\\ud83d\\ude00", "a\\\"", "\u{1F600}"] {
            both(c, u.repeat(n).as_bytes());
        }
    }
}

fn ints() -> Vec<String> {
    let mut v = vec![];
    let mut near = |x: i128| {
        for d in -12..=12 {
            v.push((x + d).to_string());
        }
    };
    for b in 0..=66 {
        near(1i128 << b);
        near(-(1i128 << b));
    }
    let mut p = 1i128;
    for _ in 0..24 {
        near(p);
        near(-p);
        near(p * 18);
        p *= 10;
    }
    v.push("-0".into());
    v.push("18446744073709551615".into());
    for l in 1..=45usize {
        for d in ["1", "9", "5", "18446744073709551615", "18446744073709551616", "9223372036854775808"] {
            let s: String = d.repeat(45).chars().take(l).collect();
            v.push(s.clone());
            v.push(format!("-{}", s));
        }
    }
    v
}
fn num_corpus() -> Vec<String> {
    let mut v = ints();
    for m in ["0", "1", "5", "9", "17976931348623157", "17976931348623159", "18446744073709551615", "18446744073709551616", "9007199254740993", "0.0", "0.1", "1.5", "0.000001", "123456789.987654321", "1.7976931348623157", "1.8", "2.2250738585072014", "4.9406564584124654", "1.00000000000000000000000001", "18446744073709551615.5", "184467440737095516150.25", "0.18446744073709551616", "99999999999999999999.9"] {
        for sg in ["", "-"] {
            v.push(format!("{}{}", sg, m));
            for e in -345..=345 {
                v.push(format!("{}{}e{}", sg, m, e));
            }
            for e in [
                "e+5", "E5", "E-5", "E+05", "e2147483647", "e-2147483647", "e2147483648", "e-2147483648", "e-2147483649", "e2147483639", "e-2147483639", "e4294967296", "e4294967297", "e-4294967297", "e99999999999", "e-99999999999", "e18446744073709551617", "e-18446744073709551617", "e-600", "e-617", "e-660", "e-1000", "e-100000",
                "e000000000000000000000000000005", "e-00000000000000000000007", "e+308", "e+309", "e1000", "e2147483640", "e-2147483640", "e2147483650",
            ] {
                v.push(format!("{}{}{}", sg, m, e));
            }
        }
    }
    for z in [1usize, 10, 19, 20, 100, 290, 300, 307, 308, 309, 310, 320, 330, 600, 700] {
        for t in ["1Z", "1Z.5", "12345678901234567890Z", "0.Z1", "0.Z123", "0.Z1eN", "1Ze-N", "0.Z1e-5", "1Ze5", "1Ze-320", "99999999999999999999Z.5e-N", "0.Z12345678901234567890123eN", "0.Z", "0.Ze5", "1.Z1", "1.Z"] {
            v.push(t.replace('Z', &"0".repeat(z)).replace('N', &z.to_string()));
        }
    }
    v
}

pub fn c04(c: &mut Ctx) {
    c.rule("integers around every power of two and ten with either sign, digit runs up to 45 digits, malformed number texts over +-.eE019 up to a length, every byte after a number; non-trivial: accepted literals");
    for s in ints() {
        agree_case(c, s.as_bytes());
        agree_case(c, format!("[{},{} ]", s, s).as_bytes());
        for t in [format!("0{}", s), format!("-0{}", s), format!("+{}", s), format!("{}.", s), format!("{}e", s), format!("{}e+", s), format!("{}E-", s), format!("{}.e1", s), format!("--{}", s), format!(".{}", s), format!("{} {}", s, s)] {
            agree_case(c, t.as_bytes());
        }
    }
    for b in 0..=255u8 {
        for t in ["0", "1", "-", "-0", "-1", "12345678901234567890", "123456789012345678901", "10", "0.", "1.5", "1e", "1e5", "1e+", ""] {
            for u in ["", "1", "0", "e1", ".5"] {
                let s = [t.as_bytes(), &[b], u.as_bytes()].concat();
                agree_case(c, &s);
            }
        }
    }
    words(NUMS, if c.thorough { 8 } else { 7 }, &mut |s| {
        agree_case(c, s);
        !c.done()
    });
    // integer targets see exactly the value
    for s in ints() {
        c.case(
            || s.clone(),
            s.as_bytes(),
            true,
            || {
                let v: Result<i128, _> = s.parse();
                let u = deser_json::from_str::<u64>(&s);
                let i = deser_json::from_str::<i64>(&s);
                match v {
                    Ok(v) => {
                        if let Ok(x) = u64::try_from(v) {
                            if s != "-0" {
                                eq("u64", u.ok(), Some(x))?;
                            }
                        } else if u.is_ok() {
                            return Err(format!("as u64: {:?}", u));
                        }
                        if let Ok(x) = i64::try_from(v) {
                            eq("i64", i.ok(), Some(x))?;
                        } else if i.is_ok() {
                            return Err(format!("as i64: {:?}", i));
                        }
                    }
                    Err(_) => {
                        if u.is_ok() || i.is_ok() {
                            return Err(format!("as u64 {:?}, as i64 {:?}", u, i));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    let k = if c.thorough { 400_000 } else { 80_000 };
    for _ in 0..k {
        let t = c.rng.next() >> c.rng.below(64);
        agree_case(c, t.to_string().as_bytes());
        agree_case(c, format!("-{}", t).as_bytes());
        if c.done() {
            return;
        }
    }
}

pub fn c05(c: &mut Ctx) {
    c.rule("mantissas crossed with exponents -345..345 and 32-bit boundaries, long digit runs with compensating exponents, random literals, malformed texts, against the correctly rounded value (exact where the property says so, otherwise within 1e-13); non-trivial: accepted literals");
    for s in num_corpus() {
        agree_case(c, s.as_bytes());
        agree_case(c, format!("[{},\n1.5]", s).as_bytes());
        if c.done() {
            return;
        }
    }
    words(NUMS, if c.thorough { 8 } else { 7 }, &mut |s| {
        agree_case(c, s);
        !c.done()
    });
    // all exactly representable cases of the table
    for e in -22..=22i32 {
        for m in [1u64, 2, 3, 5, 7, 10, 123, 999, 12345, 1 << 20, 4503599627370497, 9007199254740991, 9007199254740992] {
            agree_case(c, format!("{}e{}", m, e).as_bytes());
            let s = m.to_string();
            if s.len() > 1 {
                let (a, b) = s.split_at(s.len() / 2);
                agree_case(c, format!("{}.{}e{}", a, b, e).as_bytes());
                agree_case(c, format!("{}.{}e{}", a, b, e + b.len() as i32).as_bytes());
            }
        }
    }
    let k = if c.thorough { 800_000 } else { 150_000 };
    for _ in 0..k {
        let t = random_num(&mut c.rng);
        agree_case(c, t.as_bytes());
        if c.rng.below(4) == 0 {
            let m = c.rng.next() >> (11 + c.rng.below(50));
            let p = c.rng.below(20);
            let s = m.to_string();
            let t = if p < s.len() && p > 0 { format!("{}.{}", &s[..p], &s[p..]) } else { s };
            let e = c.rng.below(45) as i32 - 22;
            agree_case(c, format!("{}e{}", t, e).as_bytes());
        }
        if c.done() {
            return;
        }
    }
}

// --- serialization ---------------------------------------------------------------
fn ser(t: &Tree) -> Result<String, String> {
    deser_json::to_string(t).map_err(|e| format!("{:?}", e))
}

fn str_case(c: &mut Ctx, s: &str) {
    c.case(
        || format!("{:?}", s),
        s.as_bytes(),
        !s.is_empty(),
        || {
            let o = ser(&Tree::Atom(Ev::Str(s.into())))?;
            let r = reference(o.as_bytes()).ok_or_else(|| format!("{} is not JSON", o))?;
            eq("denoted text", r, vec![R::Str(s.into())])?;
            literal(&o, s)?;
            let k = ser(&Tree::Map(vec![(Tree::Atom(Ev::Str(s.into())), Tree::Atom(Ev::Null))]))?;
            eq("key", k, format!("{{{}:null}}", o))?;
            let k = ser(&Tree::Struct(vec![(s.to_string(), Tree::Atom(Ev::Str(s.into())))]))?;
            eq("field", k, format!("{{{}:{}}}", o, o))?;
            eq("String", deser_json::to_string(&s.to_string()).ok(), Some(o.clone()))?;
            let mut cs = s.chars();
            if let (Some(ch), None) = (cs.next(), cs.next()) {
                eq("char", deser_json::to_string(&ch).ok(), Some(o.clone()))?;
                let k = ser(&Tree::Map(vec![(Tree::Atom(Ev::Char(ch)), Tree::Atom(Ev::Char(ch)))]))?;
                eq("char key", k, format!("{{{}:{}}}", o, o))?;
            }
            Ok(())
        },
    );
}
/// Only quotes, backslashes and control characters are escaped.
fn literal(o: &str, s: &str) -> Result<(), String> {
    let mut it = o[1..o.len() - 1].chars();
    for ch in s.chars() {
        let g = it.next();
        if (ch as u32) < 0x20 || ch == '"' || ch == '\\' {
            if g != Some('\\') {
                return Err(format!("{:?} is not escaped in {}", ch, o));
            }
            if it.next() == Some('u') {
                for _ in 0..4 {
                    it.next();
                }
            }
        } else if g != Some(ch) {
            return Err(format!("{:?} is altered in {}", ch, o));
        }
    }
    if it.next().is_some() {
        return Err(format!("{} is too long", o));
    }
    Ok(())
}

pub fn c06(c: &mut Ctx) {
    c.rule("every Unicode character alone and between others, all pairs of ASCII characters, runs of escapes at every position, random strings; non-trivial: non-empty strings");
    str_case(c, "");
    for u in 0..=0x10ffffu32 {
        if let Some(ch) = char::from_u32(u) {
            if u < 0x3000 || c.thorough || u % 17 == 0 || u > 0xfff0 && u < 0x10010 || u > 0xd700 && u < 0xe010 {
                str_case(c, &ch.to_string());
            }
        }
    }
    for a in 0..0x80u8 {
        for b in 0..0x80u8 {
            str_case(c, &format!("{}{}", a as char, b as char));
            if c.thorough || b % 5 == 0 {
                str_case(c, &format!("x{}{}é", a as char, b as char));
                str_case(c, &format!("é{}\u{1F600}{}", a as char, b as char));
                str_case(c, &format!("{}ab{}", a as char, b as char));
            }
        }
    }
    for n in [1usize, 2, 15, 16, 17, 255, 256, 1000, 100_000] {
        for u in ["a", "\"", "\\", "\u{1}", "é", "\n", "ab\"", "\u{7f}", "\u{2028}"] {
            str_case(c, &u.repeat(n));
        }
    }
    let k = if c.thorough { 300_000 } else { 60_000 };
    for _ in 0..k {
        let n = c.rng.below(12);
        let s: String = (0..n).map(|_| if c.rng.below(3) == 0 { *c.rng.pick(&['"', '\\', '\n', '\u{0}', '\u{1f}', '/', '\u{8}']) } else { random_char(&mut c.rng) }).collect();
        str_case(c, &s);
        if c.done() {
            return;
        }
    }
}

fn want(t: &Tree, out: &mut Vec<R>) -> bool {
    match t {
        Tree::Atom(e) => match e {
            Ev::Null => out.push(R::Null),
            Ev::Bool(b) => out.push(R::Bool(*b)),
            Ev::Str(s) => out.push(R::Str(s.clone())),
            Ev::Char(s) => out.push(R::Str(s.to_string())),
            Ev::U64(x) => out.push(R::Num(x.to_string())),
            Ev::I64(x) => out.push(R::Num(x.to_string())),
            Ev::F64(x) if x.is_finite() => out.push(R::Num(format!("f{:016x}", x.to_bits()))),
            Ev::F64(_) => out.push(R::Null),
            _ => return false,
        },
        Tree::Seq(xs) => {
            out.push(R::SeqStart);
            if !xs.iter().all(|x| want(x, out)) {
                return false;
            }
            out.push(R::SeqEnd);
        }
        Tree::Map(xs) => {
            out.push(R::MapStart);
            for (k, v) in xs {
                match k {
                    Tree::Atom(Ev::Str(s)) => out.push(R::Str(s.clone())),
                    Tree::Atom(Ev::Char(s)) => out.push(R::Str(s.to_string())),
                    _ => return false,
                }
                if !want(v, out) {
                    return false;
                }
            }
            out.push(R::MapEnd);
        }
        Tree::Struct(xs) => {
            out.push(R::MapStart);
            for (k, v) in xs {
                out.push(R::Str(k.clone()));
                if !want(v, out) {
                    return false;
                }
            }
            out.push(R::MapEnd);
        }
    }
    true
}
fn tree_case(c: &mut Ctx, t: &Tree) {
    let d = format!("{:?}", t);
    c.case(
        || d.clone(),
        d.as_bytes(),
        true,
        || {
            let mut w = vec![];
            let ok = want(t, &mut w);
            match ser(t) {
                Err(e) => {
                    if ok {
                        Err(format!("refused: {}", e))
                    } else {
                        Ok(())
                    }
                }
                Ok(o) => {
                    if !ok {
                        return Err(format!("written as {} although it has no JSON form", o));
                    }
                    let g = reference(o.as_bytes()).ok_or_else(|| format!("{} is not JSON", o))?;
                    if g.len() != w.len() {
                        return Err(format!("written as {}", o));
                    }
                    for (g, w) in g.iter().zip(&w) {
                        let same = match (g, w) {
                            (R::Num(g), R::Num(w)) if w.starts_with('f') => {
                                format!("f{:016x}", g.parse::<f64>().unwrap().to_bits()) == *w
                            }
                            (g, w) => g == w,
                        };
                        if !same {
                            return Err(format!("written as {}: {:?} instead of {:?}", o, g, w));
                        }
                    }
                    Ok(())
                }
            }
        },
    );
}
fn floats(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => f64::from_bits(r.next()),
        1 => r.next() as f64,
        2 => (r.next() % 1000) as f64 / 8.0,
        3 => -((r.next() % 1000) as f64),
        4 => *r.pick(&[0.0, -0.0, 1e300, 1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 1e16, 1e15, 1e17, 0.1, 1e21, 1e-7, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 123456789012345680.0]),
        _ => (r.next() % 2000) as f64 * 0.001,
    }
}
fn random_atom(r: &mut Rng, all: bool) -> Ev {
    match r.below(if all { 9 } else { 6 }) {
        0 => Ev::Null,
        1 => Ev::Bool(r.below(2) == 0),
        2 => Ev::Str((0..r.below(4)).map(|_| random_char(r)).collect()),
        3 => Ev::Char(random_char(r)),
        4 => Ev::U64(r.next() >> r.below(64)),
        5 => Ev::I64((r.next() as i64) >> r.below(64)),
        6 | 7 => Ev::F64(floats(r)),
        _ => Ev::Bytes(vec![1, 2]),
    }
}
fn random_tree(r: &mut Rng, depth: usize, bad: usize) -> Tree {
    match r.below(if depth == 0 { 3 } else { 7 }) {
        0..=2 => {
            if r.below(100) < bad {
                Tree::Atom(Ev::Bytes(vec![1]))
            } else {
                Tree::Atom(loop {
                    let a = random_atom(r, bad > 0);
                    if !matches!(a, Ev::Bytes(_)) {
                        break a;
                    }
                })
            }
        }
        3 | 4 => Tree::Seq((0..r.below(5)).map(|_| random_tree(r, depth - 1, bad)).collect()),
        5 => Tree::Map(
            (0..r.below(4))
                .map(|_| {
                    let k = if r.below(100) < bad { random_tree(r, 1, 0) } else if r.below(4) == 0 { Tree::Atom(Ev::Char(random_char(r))) } else { Tree::Atom(Ev::Str((0..r.below(4)).map(|_| random_char(r)).collect())) };
                    (k, random_tree(r, depth - 1, bad))
                })
                .collect(),
        ),
        _ => Tree::Struct((0..r.below(4)).map(|i| (format!("f{}", i), random_tree(r, depth - 1, bad))).collect()),
    }
}

/// All trees up to a depth over a few leaves.
fn small_trees(depth: usize, width: usize) -> Vec<Tree> {
    let mut v = vec![Tree::Atom(Ev::Null), Tree::Atom(Ev::Str("k".into())), Tree::Atom(Ev::U64(1))];
    if depth > 0 {
        let sub = small_trees(depth - 1, width);
        let mut lists: Vec<Vec<Tree>> = vec![vec![]];
        let mut all = vec![vec![]];
        for _ in 0..width {
            lists = lists.iter().flat_map(|l| sub.iter().map(move |s| [l.clone(), vec![s.clone()]].concat())).collect();
            all.extend(lists.clone());
        }
        for l in all {
            v.push(Tree::Seq(l.clone()));
            v.push(Tree::Map(l.iter().enumerate().map(|(i, x)| (Tree::Atom(Ev::Str(i.to_string())), x.clone())).collect()));
            v.push(Tree::Struct(l.iter().enumerate().map(|(i, x)| (i.to_string(), x.clone())).collect()));
        }
    }
    v
}

pub fn c07(c: &mut Ctx) {
    c.rule("all small trees, every scalar kind as element, value and key, integers around powers of two, float samples, random trees with and without values JSON cannot express, deep nesting; compared with the tree through the reference parser");
    for t in small_trees(2, 2) {
        tree_case(c, &t);
        if c.done() {
            return;
        }
    }
    let mut atoms = vec![Ev::Null, Ev::Bool(true), Ev::Bool(false), Ev::Str("".into()), Ev::Str("a\"b".into()), Ev::Bytes(vec![]), Ev::Bytes(vec![65]), Ev::Char('x'), Ev::Char('"'), Ev::F64(0.0), Ev::F64(-0.0), Ev::F64(f64::NAN), Ev::F64(-f64::NAN), Ev::F64(f64::INFINITY), Ev::F64(f64::NEG_INFINITY)];
    for b in 0..64 {
        for d in -2i64..=2 {
            atoms.push(Ev::U64((1u64 << b).wrapping_add(d as u64)));
            atoms.push(Ev::I64((1i64 << b).wrapping_add(d)));
            atoms.push(Ev::I64((1i64 << b).wrapping_neg().wrapping_add(d)));
        }
    }
    let mut p = 1e-320f64;
    while p.is_finite() {
        atoms.push(Ev::F64(p));
        atoms.push(Ev::F64(-p * 1.2345678901234567));
        p *= 10.0;
    }
    for a in &atoms {
        let t = Tree::Atom(a.clone());
        tree_case(c, &t);
        tree_case(c, &Tree::Seq(vec![t.clone()]));
        tree_case(c, &Tree::Seq(vec![Tree::Atom(Ev::Null), t.clone(), Tree::Atom(Ev::U64(1))]));
        tree_case(c, &Tree::Map(vec![(Tree::Atom(Ev::Str("k".into())), t.clone()), (Tree::Atom(Ev::Str("l".into())), t.clone())]));
        tree_case(c, &Tree::Map(vec![(t.clone(), Tree::Atom(Ev::U64(1)))]));
        tree_case(c, &Tree::Map(vec![(Tree::Atom(Ev::Str("k".into())), Tree::Atom(Ev::Null)), (t.clone(), Tree::Atom(Ev::U64(1)))]));
        tree_case(c, &Tree::Struct(vec![("k".into(), t.clone())]));
    }
    for k in [Tree::Seq(vec![]), Tree::Map(vec![]), Tree::Struct(vec![]), Tree::Seq(vec![Tree::Atom(Ev::Str("a".into()))])] {
        tree_case(c, &Tree::Map(vec![(k.clone(), Tree::Atom(Ev::Null))]));
        tree_case(c, &Tree::Seq(vec![Tree::Map(vec![(Tree::Atom(Ev::Str("a".into())), k.clone()), (k.clone(), k.clone())])]));
    }
    for d in [1usize, 50, 3000] {
        for kind in 0..3 {
            let mut t = Tree::Atom(Ev::U64(7));
            for _ in 0..d {
                t = match kind {
                    0 => Tree::Seq(vec![t]),
                    1 => Tree::Map(vec![(Tree::Atom(Ev::Str("a".into())), t)]),
                    _ => Tree::Struct(vec![("x".into(), Tree::Atom(Ev::Null)), ("a".into(), t), ("b".into(), Tree::Atom(Ev::Null))]),
                };
            }
            tree_case(c, &t);
        }
    }
    let k = if c.thorough { 200_000 } else { 40_000 };
    for i in 0..k {
        let t = random_tree(&mut c.rng, 4, if i % 3 == 0 { 4 } else { 0 });
        tree_case(c, &t);
        let f = floats(&mut c.rng);
        tree_case(c, &Tree::Atom(Ev::F64(f)));
        if c.done() {
            return;
        }
    }
}

fn round(t: &Tree) -> Result<(), String> {
    let o = ser(t)?;
    let (r, log) = parse(o.as_bytes());
    r.map_err(|e| format!("{} is refused: {}", o, e))?;
    let w: Vec<Ev> = t
        .evs()
        .into_iter()
        .map(|e| match e {
            Ev::Char(c) => Ev::Str(c.to_string()),
            Ev::I64(x) if x >= 0 => Ev::U64(x as u64),
            e => e,
        })
        .collect();
    eq(&format!("through {}", o), log, w)
}

pub fn c08(c: &mut Ctx) {
    use std::collections::{BTreeMap, HashMap};
    c.rule("all small trees, integers around powers of two, every kind of character, random trees of null, booleans, integers, chars, strings, sequences and string-keyed maps, and typed values");
    for t in small_trees(2, 2) {
        let d = format!("{:?}", t);
        c.case(|| d.clone(), d.as_bytes(), true, || round(&t));
        if c.done() {
            return;
        }
    }
    for b in 0..64 {
        for d in -3i64..=3 {
            for e in [Ev::U64((1u64 << b).wrapping_add(d as u64)), Ev::I64((1i64 << b).wrapping_add(d)), Ev::I64((1i64 << b).wrapping_neg().wrapping_add(d))] {
                let t = Tree::Seq(vec![Tree::Atom(e)]);
                let d = format!("{:?}", t);
                c.case(|| d.clone(), d.as_bytes(), true, || round(&t));
            }
        }
    }
    for u in 0..=0x10ffffu32 {
        if let Some(ch) = char::from_u32(u) {
            if u < 0x1000 || c.thorough || u % 13 == 0 {
                c.case(
                    || format!("char {:?}", ch),
                    &u.to_le_bytes(),
                    true,
                    || {
                        let o = deser_json::to_string(&ch).map_err(|e| format!("{:?}", e))?;
                        eq(&o, deser_json::from_str::<char>(&o).ok(), Some(ch))?;
                        let s = format!("a{}\u{1}{}", ch, ch);
                        let o = deser_json::to_string(&s).map_err(|e| format!("{:?}", e))?;
                        eq(&o, deser_json::from_str::<String>(&o).ok(), Some(s))
                    },
                );
            }
        }
    }
    let k = if c.thorough { 200_000 } else { 40_000 };
    for _ in 0..k {
        let t = random_tree(&mut c.rng, 4, 0);
        let d = format!("{:?}", t);
        c.case(|| d.clone(), d.as_bytes(), true, || round(&t));
        let r = &mut c.rng;
        type T = Vec<(Option<i64>, BTreeMap<String, Vec<u16>>, (String, bool, char))>;
        let v: T = (0..r.below(4))
            .map(|_| {
                (
                    if r.below(3) == 0 { None } else { Some((r.next() as i64) >> r.below(64)) },
                    (0..r.below(4)).map(|_| ((0..r.below(3)).map(|_| random_char(r)).collect(), (0..r.below(3)).map(|_| r.next() as u16).collect())).collect(),
                    ((0..r.below(5)).map(|_| random_char(r)).collect(), r.below(2) == 0, random_char(r)),
                )
            })
            .collect();
        let d = format!("{:?}", v);
        c.case(
            || d.clone(),
            d.as_bytes(),
            true,
            || {
                let o = deser_json::to_string(&v).map_err(|e| format!("{:?}", e))?;
                let b = deser_json::from_str::<T>(&o).map_err(|e| format!("{} is refused: {:?}", o, e))?;
                eq(&o, b, v)
            },
        );
        let r = &mut c.rng;
        let m: HashMap<String, [Option<u64>; 2]> = (0..r.below(5)).map(|i| (format!("{}{}", i, random_char(r)), [None, Some(r.next())])).collect();
        let d = format!("{:?}", m);
        c.case(
            || d.clone(),
            d.as_bytes(),
            true,
            || {
                let o = deser_json::to_string(&m).map_err(|e| format!("{:?}", e))?;
                let b = deser_json::from_str::<HashMap<String, [Option<u64>; 2]>>(&o).map_err(|e| format!("{} is refused: {:?}", o, e))?;
                eq(&o, b, m)
            },
        );
        if c.done() {
            return;
        }
    }
}
