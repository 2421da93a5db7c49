//! Path tracking (C21, C22): values and sinks that look at the path.
use crate::ctx::*;
use crate::de::*;
use crate::drv::{plain, trace_of};
use crate::model::*;
use crate::ser::{call, calls};
use deser::de::{DeserializeDriver, DeserializerState, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Error, Serialize};
use deser_path::{Path, PathSegment, PathSerializable, PathSink};
use std::borrow::Cow;

fn fmt_path(p: &[PathSegment]) -> String {
    format!("{:?}", p)
}
fn seg(k: &Tree, signed: bool) -> PathSegment {
    match k {
        Tree::Atom(Ev::Str(s)) => PathSegment::Key(s.clone()),
        Tree::Atom(Ev::U64(x)) => PathSegment::Index(*x as usize),
        Tree::Atom(Ev::I64(x)) if signed && *x >= 0 => PathSegment::Index(*x as usize),
        _ => PathSegment::Unknown,
    }
}
/// A tree whose every node tells its path when asked to serialize itself.
struct Spy {
    node: Tree,
    quiet: bool,
    kids: Vec<(Option<String>, Spy)>,
}
impl Spy {
    fn new(t: &Tree, quiet: bool) -> Spy {
        let kids = match t {
            Tree::Atom(_) => vec![],
            Tree::Seq(v) => v.iter().map(|x| (None, Spy::new(x, quiet))).collect(),
            // what is nested inside a key has no location
            Tree::Map(v) => v.iter().flat_map(|(a, b)| [(None, Spy::new(a, quiet || !matches!(a, Tree::Atom(_)))), (None, Spy::new(b, quiet))]).collect(),
            Tree::Struct(v) => v.iter().map(|(k, b)| (Some(k.clone()), Spy::new(b, quiet))).collect(),
        };
        Spy { node: t.clone(), quiet, kids }
    }
}
struct Em<'a>(&'a Spy, usize);
impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.1 += 1;
        Ok(self.0.kids.get(self.1 - 1).map(|x| SerializeHandle::to(&x.1)))
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.1 += 1;
        Ok(self.0.kids.get(self.1 - 1).map(|x| SerializeHandle::to(&x.1)))
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle, Error> {
        self.1 += 1;
        Ok(SerializeHandle::to(&self.0.kids[self.1 - 1].1))
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        self.1 += 1;
        Ok(self.0.kids.get(self.1 - 1).map(|x| (Cow::Borrowed(x.0.as_ref().unwrap().as_str()), SerializeHandle::to(&x.1))))
    }
}
impl Serialize for Spy {
    fn serialize(&self, s: &SerializerState) -> Result<Chunk, Error> {
        if !self.quiet {
            call(fmt_path(s.get::<Path>().segments()));
        }
        Ok(match &self.node {
            Tree::Atom(e) => match to_event(e) {
                deser::Event::Atom(a) => Chunk::Atom(a),
                _ => unreachable!(),
            },
            Tree::Seq(_) => Chunk::Seq(Box::new(Em(self, 0))),
            Tree::Map(_) => Chunk::Map(Box::new(Em(self, 0))),
            Tree::Struct(_) => Chunk::Struct(Box::new(Em(self, 0))),
        })
    }
}
fn ser_paths(t: &Tree, here: &mut Vec<PathSegment>, quiet: bool, o: &mut Vec<String>) {
    if quiet {
        return;
    }
    o.push(fmt_path(here));
    match t {
        Tree::Atom(_) => {}
        Tree::Seq(v) => {
            for (i, x) in v.iter().enumerate() {
                here.push(PathSegment::Index(i));
                ser_paths(x, here, quiet, o);
                here.pop();
            }
        }
        Tree::Map(v) => {
            for (k, x) in v {
                ser_paths(k, here, !matches!(k, Tree::Atom(_)), o);
                here.push(seg(k, false));
                ser_paths(x, here, quiet, o);
                here.pop();
            }
        }
        Tree::Struct(v) => {
            for (k, x) in v {
                here.push(PathSegment::Key(k.clone()));
                ser_paths(x, here, quiet, o);
                here.pop();
            }
        }
    }
}
/// Keys whose location the properties leave open become others.
fn tame(t: &Tree) -> Tree {
    match t {
        Tree::Atom(e) => Tree::Atom(e.clone()),
        Tree::Seq(v) => Tree::Seq(v.iter().map(tame).collect()),
        Tree::Map(v) => Tree::Map(
            v.iter()
                .map(|(a, b)| {
                    (
                        match a {
                            Tree::Atom(Ev::I64(x)) => Tree::Atom(Ev::I64(-1 - x.saturating_abs().max(0) / 2)),
                            _ => tame(a),
                        },
                        tame(b),
                    )
                })
                .collect(),
        ),
        Tree::Struct(v) => Tree::Struct(v.iter().map(|(a, b)| (a.clone(), tame(b))).collect()),
    }
}
fn ser_case(t: &Tree) -> Result<(), String> {
    let spy = Spy::new(t, false);
    let mut want = vec![];
    ser_paths(t, &mut vec![], false, &mut want);
    calls();
    let wrapped = PathSerializable::wrap(&spy);
    let mut d = SerializeDriver::new(&wrapped);
    let mut evs = vec![];
    while let Some((e, _, _)) = d.next().map_err(|e| format!("{:?}", e))? {
        evs.push(event_ev(&e));
    }
    let end = fmt_path(d.state().get::<Path>().segments());
    let got = calls();
    for i in 0..want.len().max(got.len()) {
        if got.get(i) != want.get(i) {
            return Err(format!("value {}: path {:?}, expected {:?}", i, got.get(i), want.get(i)));
        }
    }
    eq("path at the end", end, "[]".to_string())?;
    eq("events", evs, t.evs())
}
fn shape(c: &mut Ctx) -> Tree {
    let d = 1 + c.rng.below(6) as u32;
    let mut t = rand_tree(&mut c.rng, d);
    if c.rng.below(5) == 0 {
        mutate(&mut t, &mut c.rng);
    }
    t
}
fn deep(kind: u32, depth: u32) -> Tree {
    let mut t = Tree::Atom(Ev::Null);
    for i in 0..depth {
        let leaf = Tree::Atom(Ev::U64(i as u64));
        t = match if kind == 3 { i % 3 } else { kind } {
            0 => Tree::Seq(vec![leaf.clone(), t, leaf]),
            1 => Tree::Map(vec![(leaf.clone(), leaf.clone()), (leaf.clone(), t), (leaf.clone(), leaf)]),
            _ => Tree::Struct(vec![("a".into(), leaf.clone()), (format!("k{}", i), t), ("z".into(), leaf)]),
        };
    }
    t
}
pub fn c21(c: &mut Ctx) {
    c.rule("random value trees (depth to 6; sequences, maps with keys of every kind, structs) whose every node reports the path when serialized; deep nestings");
    let n = if c.thorough { 100_000 } else { 8000 };
    for _ in 0..n {
        if c.done() {
            return;
        }
        let t = tame(&shape(c));
        c.case(|| short(&t.evs()), format!("{:?}", t).as_bytes(), true, || ser_case(&t));
    }
    for kind in 0..4 {
        for depth in [10, 100, 130] {
            let t = deep(kind, depth);
            c.case(|| format!("nesting {} of kind {}", depth, kind), format!("deep{}{}", depth, kind).as_bytes(), true, || ser_case(&t));
        }
    }
    // handles, options and boxes in between keep the path
    c.check("boxes, options and owned handles", || {
        let t = Tree::Struct(vec![("a".into(), Tree::Seq(vec![Tree::Atom(Ev::Null), Tree::Atom(Ev::U64(1))]))]);
        let v = vec![Some(Box::new(Spy::new(&t, false))), None, Some(Box::new(Spy::new(&Tree::Atom(Ev::Null), false)))];
        calls();
        let w = PathSerializable::wrap_ref(SerializeHandle::boxed(v));
        ser_events(&w)?;
        eq(
            "paths",
            calls(),
            ["[Index(0)]", "[Index(0), Key(\"a\")]", "[Index(0), Key(\"a\"), Index(0)]", "[Index(0), Key(\"a\"), Index(1)]", "[Index(2)]"].map(String::from).to_vec(),
        )
    });
}

fn path_note(s: &DeserializerState) -> String {
    format!("at {}", fmt_path(s.get::<Path>().segments()))
}
fn no_note(_: &DeserializerState) -> String {
    String::new()
}
/// One entry per scalar in document order; None for keys.
fn de_paths(t: &Tree, here: &mut Vec<PathSegment>, open: bool, o: &mut Vec<Option<String>>) {
    match t {
        Tree::Atom(_) => o.push(if open { None } else { Some(fmt_path(here)) }),
        Tree::Seq(v) => {
            for (i, x) in v.iter().enumerate() {
                here.push(PathSegment::Index(i));
                de_paths(x, here, open, o);
                here.pop();
            }
        }
        Tree::Map(v) => {
            for (k, x) in v {
                de_paths(k, here, true, o);
                here.push(seg(k, true));
                de_paths(x, here, open, o);
                here.pop();
            }
        }
        Tree::Struct(_) => unreachable!(),
    }
}
fn de_case(t: &Tree, mode: u32) -> Result<(), String> {
    let mut want = vec![];
    de_paths(t, &mut vec![], false, &mut want);
    let (got, end) = trace_of(t, mode, path_note, true)?;
    let atoms: Vec<&str> = got.iter().filter(|s| s.starts_with("atom ")).map(|s| &s[s.rfind(" at [").unwrap() + 4..]).collect();
    eq("scalars", atoms.len(), want.len())?;
    for (i, w) in want.iter().enumerate() {
        if let Some(w) = w {
            // the text of the value may contain " at [" itself
            if !got.iter().filter(|s| s.starts_with("atom ")).nth(i).unwrap().ends_with(&format!(" at {}", w)) {
                return Err(format!("scalar {}: path {}, expected {}", i, atoms[i], w));
            }
        }
    }
    eq("path at the end", fmt_path(&end), "[]".to_string())?;
    let (a, _) = trace_of(t, mode, no_note, true)?;
    let (b, _) = trace_of(t, mode, no_note, false)?;
    eq("calls with and without tracking", a, b)
}
fn wrapped_target<T: Model>(c: &mut Ctx, n: usize) {
    for i in 0..n {
        let mut t = T::gen(&mut c.rng, 4);
        if i % 3 == 2 {
            mutate(&mut t, &mut c.rng);
        }
        let evs = t.evs();
        c.case(|| format!("{} behind a path sink from {:?}", T::name(), evs), format!("w{}{:?}", T::name(), evs).as_bytes(), true, || {
            let mut out = None::<T>;
            let mut r = Ok(());
            {
                let mut p = PathSink::wrap_ref(T::deserialize_into(&mut out));
                let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut p));
                for e in &evs {
                    if let Err(x) = d.emit(to_event(e)) {
                        r = Err(x.kind());
                        break;
                    }
                }
            }
            let (r2, out2) = feed::<T>(&evs);
            eq("result", (r, out), (r2, out2))
        });
    }
}
pub fn c22(c: &mut Ctx) {
    c.rule("random value trees (depth to 6) into sinks behind a path sink that report the path at every scalar, handed out boxed, borrowed and ignored; deep nestings; typed targets behind a path sink");
    let n = if c.thorough { 60_000 } else { 5000 };
    for _ in 0..n {
        if c.done() {
            return;
        }
        let t = plain(&shape(c));
        for mode in 0..3 {
            c.case(|| format!("{} (handles {})", short(&t.evs()), mode), format!("{:?}{}", t, mode).as_bytes(), true, || de_case(&t, mode));
        }
    }
    for kind in 0..4 {
        for depth in [10, 100, 130] {
            let t = plain(&deep(kind, depth));
            c.case(|| format!("nesting {} of kind {}", depth, kind), format!("deep{}{}", depth, kind).as_bytes(), true, || de_case(&t, 0));
        }
    }
    use std::collections::BTreeMap;
    wrapped_target::<Vec<u32>>(c, 200);
    wrapped_target::<BTreeMap<String, Vec<Option<u8>>>>(c, 200);
    wrapped_target::<BTreeMap<u8, BTreeMap<u8, u8>>>(c, 200);
    #[cfg(feature = "derive")]
    wrapped_target::<crate::derive::Plain>(c, 200);
    #[cfg(feature = "derive")]
    wrapped_target::<crate::derive::Flat>(c, 200);
    #[cfg(feature = "derive")]
    wrapped_target::<Vec<crate::derive::Flat>>(c, 100);
    wrapped_target::<(u8, [String; 2])>(c, 200);
    wrapped_target::<Option<Box<Vec<u8>>>>(c, 200);
}
