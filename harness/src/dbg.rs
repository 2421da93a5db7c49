//! deser-debug (C28): what a value is shown as, against core's own builders
//! driven from the value's tree, and writers that fail.
use crate::ctx::*;
use crate::model::{to_event, Ev};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeHandle, SerializerState, StructEmitter};
use deser::{Descriptor, Error, Event, Serialize};
use deser_debug::ToDebug;
use std::borrow::Cow;
use std::fmt::{self, Write};

#[derive(Clone, Debug)]
enum Node {
    Atom(Ev),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Struct(Vec<(String, V)>),
}
#[derive(Clone, Debug)]
struct V {
    name: Option<String>,
    node: Node,
}
impl Descriptor for V {
    fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
}
struct Em<'a>(&'a V, usize, bool);
impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        let Node::Seq(v) = &self.0.node else { unreachable!() };
        self.1 += 1;
        Ok(v.get(self.1 - 1).map(|x| SerializeHandle::to(x)))
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        let Node::Map(v) = &self.0.node else { unreachable!() };
        Ok(v.get(self.1).map(|x| SerializeHandle::to(&x.0)))
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle, Error> {
        let Node::Map(v) = &self.0.node else { unreachable!() };
        self.1 += 1;
        Ok(SerializeHandle::to(&v[self.1 - 1].1))
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        let Node::Struct(v) = &self.0.node else { unreachable!() };
        self.1 += 1;
        Ok(v.get(self.1 - 1).map(|x| (Cow::Borrowed(x.0.as_str()), SerializeHandle::to(&x.1))))
    }
}
impl Serialize for V {
    fn descriptor(&self) -> &dyn Descriptor {
        self
    }
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        Ok(match &self.node {
            Node::Atom(e) => match to_event(e) {
                Event::Atom(a) => Chunk::Atom(a),
                _ => unreachable!(),
            },
            Node::Seq(_) => Chunk::Seq(Box::new(Em(self, 0, true))),
            Node::Map(_) => Chunk::Map(Box::new(Em(self, 0, true))),
            Node::Struct(_) => Chunk::Struct(Box::new(Em(self, 0, true))),
        })
    }
}

/// The reference: written from the tree, with core's builders.
struct Want<'a>(&'a V);
struct WantStr<'a>(&'a str);
impl<'a> fmt::Debug for WantStr<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.0, f)
    }
}
impl<'a> fmt::Debug for Want<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if let Some(n) = &self.0.name {
            match &self.0.node {
                Node::Seq(_) if n == "Vec" || n == "slice" => {}
                Node::Atom(_) => {}
                _ => {
                    f.write_str(n)?;
                    f.write_char(' ')?;
                }
            }
        }
        match &self.0.node {
            Node::Seq(v) => f.debug_list().entries(v.iter().map(Want)).finish(),
            Node::Map(v) => f.debug_map().entries(v.iter().map(|(a, b)| (Want(a), Want(b)))).finish(),
            Node::Struct(v) => f.debug_map().entries(v.iter().map(|(a, b)| (WantStr(a), Want(b)))).finish(),
            Node::Atom(e) => match e {
                Ev::Null => fmt::Debug::fmt(&(), f),
                Ev::Bool(x) => fmt::Debug::fmt(x, f),
                Ev::Char(x) => fmt::Debug::fmt(x, f),
                Ev::U64(x) => fmt::Debug::fmt(x, f),
                Ev::I64(x) => fmt::Debug::fmt(x, f),
                Ev::F64(x) => fmt::Debug::fmt(x, f),
                Ev::Str(x) => fmt::Debug::fmt(x, f),
                Ev::Bytes(x) => {
                    let mut s = String::from("b\"");
                    for b in x {
                        match b {
                            0 => s += "\\0",
                            9 => s += "\\t",
                            10 => s += "\\n",
                            13 => s += "\\r",
                            34 => s += "\\\"",
                            92 => s += "\\\\",
                            32..=126 => s.push(char::from(*b)),
                            _ => {
                                s += "\\x";
                                for d in [b / 16, b % 16] {
                                    s.push(char::from_digit(d as u32, 16).unwrap());
                                }
                            }
                        }
                    }
                    s.push('"');
                    f.write_str(&s)
                }
                _ => unreachable!(),
            },
        }
    }
}

/// Takes `left` bytes, then fails; a write that does not fit is not taken.
struct Short {
    left: usize,
    got: String,
}
impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

fn atom(r: &mut Rng) -> Ev {
    match r.below(9) {
        0 => Ev::Null,
        1 => Ev::Bool(r.below(2) == 0),
        2 => Ev::Char(*r.pick(&['a', '\'', '"', '\n', '\0', '\u{7f}', 'é', '\u{10ffff}', '\u{301}'])),
        3 => Ev::U64(*r.pick(&[0, 1, 9, 10, 255, u64::MAX, i64::MAX as u64 + 1])),
        4 => Ev::I64(*r.pick(&[0, -1, 1, i64::MIN, i64::MAX])),
        5 => Ev::F64(*r.pick(&[0.0, -0.0, 1.0, 0.1, 1e16, 1e-7, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, -2.5])),
        6 => Ev::Bytes((0..r.below(5)).map(|_| r.next() as u8).collect()),
        7 => Ev::Bytes((0..r.below(4)).map(|_| *r.pick(&[0u8, 9, 10, 13, 31, 32, 33, 34, 35, 39, 91, 92, 93, 126, 127, 128, 255])).collect()),
        _ => Ev::Str((0..r.below(4)).map(|_| *r.pick(&['a', ' ', '"', '\\', '\n', '\0', 'é', '\u{200b}', '{', '}'])).collect()),
    }
}
fn value(r: &mut Rng, depth: usize) -> V {
    let name = match r.below(8) {
        0..=2 => None,
        3 => Some("Vec".to_string()),
        4 => Some("slice".to_string()),
        5 => Some("BTreeMap".to_string()),
        6 => Some(r.pick(&["vec", "Slice", "", " ", "Vec<u8>", "{}", "a\"b", "Ünï"]).to_string()),
        _ => Some("Thing".to_string()),
    };
    let n = r.below(4);
    let node = match if depth == 0 { 0 } else { r.below(6) } {
        0 | 1 => Node::Atom(atom(r)),
        2 | 3 => Node::Seq((0..n).map(|_| value(r, depth - 1)).collect()),
        4 => Node::Map((0..n).map(|_| (value(r, depth - 1), value(r, depth - 1))).collect()),
        _ => Node::Struct((0..n).map(|i| (r.pick(&["a", "b c", "\"", "", "\n"]).to_string() + &i.to_string(), value(r, depth - 1))).collect()),
    };
    V { name, node }
}

fn one(v: &V) -> Result<(), String> {
    let d = ToDebug::new(v);
    let want = format!("{:?}", Want(v));
    eq("{:?}", format!("{:?}", d), want.clone())?;
    eq("{}", format!("{}", d), want.clone())?;
    eq("a second time", d.to_string(), want.clone())?;
    let pretty = format!("{:#?}", Want(v));
    eq("{:#?}", format!("{:#?}", d), pretty.clone())?;
    eq("{:#}", format!("{:#}", d), pretty.clone())?;
    eq("{:4.1?}", format!("{:4.1?}", d), format!("{:4.1?}", Want(v)))?;
    eq("{:+}", format!("{:+}", d), format!("{:+?}", Want(v)))?;
    eq("{:x?}", format!("{:x?}", d), format!("{:x?}", Want(v)))?;
    for alt in [false, true] {
        let full = if alt { &pretty } else { &want };
        let step = 1 + full.len() / 60;
        for left in (0..=full.len()).step_by(step).chain([full.len().saturating_sub(1), full.len()]) {
            let mut w = Short { left, got: String::new() };
            let r = if alt { write!(w, "{:#?}", d) } else { write!(w, "{}", d) };
            if r.is_ok() != (left >= full.len()) {
                return Err(format!("a writer that takes {} of {} bytes: {:?}", left, full.len(), r));
            }
            if !full.starts_with(&w.got) {
                return Err(format!("a writer that takes {} bytes got {:?}, not the start of {:?}", left, w.got, full));
            }
        }
    }
    Ok(())
}

pub fn c28(c: &mut Ctx) {
    c.rule("every single byte, alone and in pairs with the special ones; random trees of all kinds of values with and without names, flags {} {:?} {:#?} {:#} {:4.1?} {:+} {:x?}; writers that fail after k bytes");
    for b in 0..=255u8 {
        for more in [vec![], vec![b'"'], vec![b'\\', b], vec![b'0']] {
            let mut x = vec![b];
            x.extend(more);
            let v = V { name: None, node: Node::Atom(Ev::Bytes(x)) };
            c.case(|| format!("{:?}", v), format!("{:?}", v).as_bytes(), true, || one(&v));
        }
    }
    let mut empty = vec![];
    for n in [None, Some("Vec"), Some("slice"), Some("X")] {
        for node in [Node::Seq(vec![]), Node::Map(vec![]), Node::Struct(vec![]), Node::Atom(Ev::Null)] {
            empty.push(V { name: n.map(|x| x.to_string()), node });
        }
    }
    for v in &empty {
        c.case(|| format!("{:?}", v), format!("{:?}", v).as_bytes(), true, || one(v));
    }
    let n = if c.thorough { 60000 } else { 4000 };
    let mut r = Rng(c.rng.next());
    for i in 0..n {
        if c.done() {
            break;
        }
        let v = value(&mut r, 1 + i % 4);
        let t = format!("{:?}", v);
        c.case(|| t.clone(), t.as_bytes(), true, || one(&v));
    }
    // deep nesting of one kind
    for kind in 0..3 {
        let mut v = V { name: None, node: Node::Atom(Ev::U64(1)) };
        for _ in 0..100 {
            let leaf = V { name: None, node: Node::Atom(Ev::Bool(true)) };
            v = V { name: Some("N".into()), node: match kind { 0 => Node::Seq(vec![v]), 1 => Node::Map(vec![(leaf, v)]), _ => Node::Map(vec![(v, leaf)]) } };
        }
        c.case(|| format!("100 deep, kind {}", kind), &[kind], true, || one(&v));
    }
}
