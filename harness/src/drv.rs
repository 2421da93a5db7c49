//! The deserialize driver (C18): sinks that report every call.
use crate::ctx::*;
use crate::de::{mutate, rand_atom, rand_tree, short};
use crate::model::*;
use crate::ser::{call, calls};
use deser::de::{DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error, ErrorKind};
use std::cell::Cell;

thread_local! { static IDS: Cell<u32> = Cell::new(0); static FUSE: Cell<i64> = Cell::new(-1); static MODE: Cell<u32> = Cell::new(0); }
fn fuse(what: &str) -> Result<(), Error> {
    FUSE.with(|f| {
        let v = f.get();
        if v >= 0 {
            f.set(v - 1);
        }
        if v == 0 {
            Err(Error::new(ErrorKind::WrongLength, format!("planned failure in {}", what)))
        } else {
            Ok(())
        }
    })
}
#[derive(Clone, Copy, PartialEq)]
enum How {
    Boxed,
    Borrowed,
    Null,
}
/// How the n-th sink is handed out.
fn how(id: u32) -> How {
    match MODE.with(|m| m.get()) {
        0 => How::Boxed,
        1 => How::Borrowed,
        2 => if id % 2 == 0 { How::Boxed } else { How::Borrowed },
        _ => match (id.wrapping_mul(2654435761) >> 16) % 7 { 0 | 1 | 2 => How::Boxed, 6 => How::Null, _ => How::Borrowed },
    }
}
pub struct Script {
    id: u32,
    desc: Name,
    /// alternates for two borrowed children
    child: Vec<Box<Script>>,
    note: fn(&DeserializerState) -> String,
}
struct Name(String);
impl Descriptor for Name {
    fn name(&self) -> Option<&str> {
        Some(&self.0)
    }
}
pub fn where_am_i(s: &DeserializerState) -> String {
    format!("depth {} in {:?}", s.depth(), s.top_descriptor().map(|d| d.name().unwrap_or("?").to_string()))
}
fn new_id() -> u32 {
    IDS.with(|i| {
        i.set(i.get() + 1);
        i.get()
    })
}
impl Script {
    pub fn new(note: fn(&DeserializerState) -> String) -> Script {
        let id = new_id();
        Script { id, desc: Name(format!("s{}", id)), child: vec![], note }
    }
    fn hand(&mut self) -> SinkHandle<'_> {
        let s = Script::new(self.note);
        match how(s.id) {
            How::Boxed => SinkHandle::boxed(s),
            How::Null => SinkHandle::null(),
            How::Borrowed => {
                self.child.clear();
                self.child.push(Box::new(s));
                SinkHandle::to(&mut *self.child[0])
            }
        }
    }
}
impl Sink for Script {
    fn atom(&mut self, a: Atom, s: &DeserializerState) -> Result<(), Error> {
        call(format!("atom s{} {:?} {}", self.id, atom_ev(&a), (self.note)(s)));
        fuse("atom")
    }
    fn map(&mut self, s: &DeserializerState) -> Result<(), Error> {
        call(format!("map s{} {}", self.id, where_am_i(s)));
        fuse("map")
    }
    fn seq(&mut self, s: &DeserializerState) -> Result<(), Error> {
        call(format!("seq s{} {}", self.id, where_am_i(s)));
        fuse("seq")
    }
    fn next_key(&mut self, s: &DeserializerState) -> Result<SinkHandle, Error> {
        call(format!("next_key s{} {}", self.id, where_am_i(s)));
        fuse("next_key")?;
        Ok(self.hand())
    }
    fn next_value(&mut self, s: &DeserializerState) -> Result<SinkHandle, Error> {
        call(format!("next_value s{} {}", self.id, where_am_i(s)));
        fuse("next_value")?;
        Ok(self.hand())
    }
    fn finish(&mut self, s: &DeserializerState) -> Result<(), Error> {
        call(format!("finish s{} {}", self.id, where_am_i(s)));
        fuse("finish")
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.desc
    }
}
/// The calls a value must cause; `id` counts the sinks handed out.
fn expect(t: &Tree, me: Option<u32>, id: &mut u32, top: &[String], o: &mut Vec<String>) {
    let name = me.map(|m| format!("s{}", m));
    let mut say = |o: &mut Vec<String>, what: String| {
        if let Some(n) = &name {
            o.push(what.replace("@", n));
        }
    };
    let mut fresh = |id: &mut u32| -> Option<u32> {
        me?;
        *id += 1;
        if how(*id) == How::Null { None } else { Some(*id) }
    };
    let at = |t: &[String]| format!("depth {} in {:?}", t.len(), t.last());
    let mut inner = top.to_vec();
    inner.push(name.clone().unwrap_or("?".into()));
    match t {
        Tree::Atom(e) => {
            if name.is_some() {
                o.push(format!("atom {} {:?} depth {} in {:?}", name.as_ref().unwrap(), e, top.len(), top.last()));
            }
        }
        Tree::Seq(v) => {
            say(o, format!("seq @ {}", at(top)));
            for x in v {
                say(o, format!("next_value @ {}", at(&inner)));
                let c = fresh(id);
                expect(x, c, id, &inner, o);
            }
        }
        Tree::Map(v) => {
            say(o, format!("map @ {}", at(top)));
            for (a, b) in v {
                say(o, format!("next_key @ {}", at(&inner)));
                let c = fresh(id);
                expect(a, c, id, &inner, o);
                say(o, format!("next_value @ {}", at(&inner)));
                let c = fresh(id);
                expect(b, c, id, &inner, o);
            }
        }
        Tree::Struct(_) => unreachable!(),
    }
    // a container still counts as open when it is finished
    say(o, format!("finish @ {}", at(if matches!(t, Tree::Atom(_)) { top } else { &inner })));
}
/// Maps instead of structs: the events are the same.
pub fn plain(t: &Tree) -> Tree {
    match t {
        Tree::Atom(e) => Tree::Atom(e.clone()),
        Tree::Seq(v) => Tree::Seq(v.iter().map(plain).collect()),
        Tree::Map(v) => Tree::Map(v.iter().map(|(a, b)| (plain(a), plain(b))).collect()),
        Tree::Struct(v) => Tree::Map(v.iter().map(|(a, b)| (Tree::Atom(Ev::Str(a.clone())), plain(b))).collect()),
    }
}
fn start(mode: u32) {
    MODE.with(|m| m.set(mode));
    IDS.with(|i| i.set(0));
    FUSE.with(|f| f.set(-1));
    calls();
}
fn run(t: &Tree, mode: u32) -> Result<(), String> {
    start(mode);
    let mut want = vec![];
    let mut id = 1;
    expect(t, Some(1), &mut id, &[], &mut want);
    let mut root = Script::new(where_am_i);
    let depth = {
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut root));
        for e in t.evs() {
            d.emit(to_event(&e)).map_err(|x| format!("{:?} failed: {:?}", e, x))?;
        }
        d.state().depth()
    };
    let got = calls();
    for i in 0..want.len().max(got.len()) {
        if got.get(i) != want.get(i) {
            return Err(format!("call {}: got {:?}, expected {:?}", i, got.get(i), want.get(i)));
        }
    }
    eq("depth at the end", depth, 0)
}
fn fail(t: &Tree, mode: u32, k: i64) -> Result<(), String> {
    start(mode);
    let mut want = vec![];
    let mut id = 1;
    expect(t, Some(1), &mut id, &[], &mut want);
    let mut root = Script::new(where_am_i);
    FUSE.with(|f| f.set(k));
    let mut err = None;
    {
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut root));
        for e in t.evs() {
            if let Err(x) = d.emit(to_event(&e)) {
                err = Some(x);
                break;
            }
        }
    }
    FUSE.with(|f| f.set(-1));
    let got = calls();
    if k as usize >= want.len() {
        return if err.is_none() { Ok(()) } else { Err(format!("unexpected error {:?}", err)) };
    }
    let err = err.ok_or("the error was lost")?;
    if err.kind() != ErrorKind::WrongLength || !err.to_string().contains("planned failure in") {
        return Err(format!("the error was changed: {:?}", err));
    }
    if got != want[..k as usize + 1] {
        return Err(format!("calls until the failure: {:?}, expected {:?}", got, &want[..k as usize + 1]));
    }
    Ok(())
}
pub fn c18(c: &mut Ctx) {
    c.rule("random value trees (depth to 6) into sinks that report every call, handed out boxed, borrowed and as ignoring handles; planned failures at every call; early drop; deep nestings; long containers");
    let n = if c.thorough { 60_000 } else { 4000 };
    for i in 0..n {
        if c.done() {
            return;
        }
        let d = 1 + c.rng.below(6) as u32;
        let mut t = rand_tree(&mut c.rng, d);
        if i % 5 == 0 {
            mutate(&mut t, &mut c.rng);
        }
        let t = plain(&t);
        for mode in 0..4 {
            c.case(|| format!("{} (handles {})", short(&t.evs()), mode), format!("{:?}{}", t, mode).as_bytes(), true, || run(&t, mode));
        }
        if i % 4 == 0 {
            for k in 0..14 {
                c.case(|| format!("{} failing at call {}", short(&t.evs()), k), format!("{:?}f{}", t, k).as_bytes(), true, || fail(&t, (k % 4) as u32, k));
            }
            let evs = t.evs();
            for k in 0..evs.len().min(8) {
                c.case(|| format!("{} dropped after {} events", short(&evs), k), format!("{:?}d{}", t, k).as_bytes(), false, || {
                    start(k as u32 % 4);
                    let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(Script::new(where_am_i)));
                    for e in &evs[..k] {
                        d.emit(to_event(e)).map_err(|x| format!("{:?}", x))?;
                    }
                    Ok(())
                });
            }
        }
    }
    for depth in [100u32, 127, 128, 129, 300, 1000] {
        for kind in 0..3 {
            let mut t = Tree::Atom(rand_atom(&mut c.rng));
            for i in 0..depth {
                let leaf = Tree::Atom(Ev::U64(i as u64));
                t = match if kind == 2 { i % 2 } else { kind } {
                    0 => Tree::Seq(vec![leaf.clone(), t, leaf]),
                    _ => Tree::Map(vec![(leaf.clone(), leaf.clone()), (leaf.clone(), t), (leaf.clone(), leaf)]),
                };
            }
            for mode in 0..4 {
                c.case(|| format!("nesting {} of kind {} (handles {})", depth, kind, mode), format!("deep{}{}{}", depth, kind, mode).as_bytes(), true, || run(&t, mode));
            }
        }
    }
    for len in [127u64, 128, 129, 300, 20_000] {
        let leaf = |x: u64| Tree::Atom(Ev::U64(x));
        for t in [Tree::Seq((0..len).map(leaf).collect()), Tree::Map((0..len).map(|x| (leaf(x), leaf(x + 1))).collect())] {
            for mode in 0..4 {
                c.case(|| format!("{} entries (handles {})", len, mode), format!("long{}{}{}", len, mode, matches!(t, Tree::Seq(_))).as_bytes(), true, || run(&t, mode));
            }
        }
    }
}
pub fn trace_of(t: &Tree, mode: u32, note: fn(&DeserializerState) -> String, wrap: bool) -> Result<(Vec<String>, Vec<deser_path::PathSegment>), String> {
    start(mode);
    let mut root = Script::new(note);
    let mut p;
    let h = if wrap {
        p = deser_path::PathSink::wrap(&mut root);
        SinkHandle::to(&mut p)
    } else {
        SinkHandle::to(&mut root)
    };
    let mut d = DeserializeDriver::from_sink(h);
    for e in t.evs() {
        d.emit(to_event(&e)).map_err(|x| format!("{:?} failed: {:?}", e, x))?;
    }
    let end = d.state().get::<deser_path::Path>().segments().to_vec();
    drop(d);
    Ok((calls(), end))
}
