//! Extension values (C31): every access of a type is compared with a model.
use crate::ctx::*;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Atom, Error, Event};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;

trait Val: Default + Debug + 'static {
    fn read(&self) -> u64;
    fn write(&mut self, x: u64);
}
struct Entry {
    name: &'static str,
    default: u64,
    ser: fn(&SerializerState, Option<u64>) -> u64,
    de: fn(&DeserializerState, Option<u64>) -> u64,
}
fn ser_access<T: Val>(s: &SerializerState, v: Option<u64>) -> u64 {
    match v {
        None => s.get::<T>().read(),
        Some(v) => {
            let mut r = s.get_mut::<T>();
            let old = r.read();
            r.write(v);
            old
        }
    }
}
fn de_access<T: Val>(s: &DeserializerState, v: Option<u64>) -> u64 {
    match v {
        None => s.get::<T>().read(),
        Some(v) => {
            let mut r = s.get_mut::<T>();
            let old = r.read();
            r.write(v);
            old
        }
    }
}
fn entry<T: Val>(name: &'static str) -> Entry {
    Entry { name, default: T::default().read(), ser: ser_access::<T>, de: de_access::<T> }
}
macro_rules! val {
    ($t:ty, $n:ident, $d:expr) => {
        #[derive(Debug)]
        struct $n($t);
        impl Default for $n {
            fn default() -> Self {
                $n($d)
            }
        }
        impl Val for $n {
            fn read(&self) -> u64 {
                self.0 as u64
            }
            fn write(&mut self, x: u64) {
                self.0 = x as _;
            }
        }
    };
}
#[derive(Debug)]
struct G<T>(u64, std::marker::PhantomData<T>);
impl<T> Default for G<T> {
    fn default() -> Self {
        G(std::any::type_name::<T>().len() as u64, std::marker::PhantomData)
    }
}
impl<T: Debug + 'static> Val for G<T> {
    fn read(&self) -> u64 {
        self.0
    }
    fn write(&mut self, x: u64) {
        self.0 = x;
    }
}
impl Val for Vec<u64> {
    fn read(&self) -> u64 {
        self.last().copied().unwrap_or(0)
    }
    fn write(&mut self, x: u64) {
        self.push(x);
    }
}
impl Val for String {
    fn read(&self) -> u64 {
        self.parse().unwrap_or(0)
    }
    fn write(&mut self, x: u64) {
        *self = x.to_string();
    }
}
impl Val for u64 {
    fn read(&self) -> u64 {
        *self
    }
    fn write(&mut self, x: u64) {
        *self = x;
    }
}
mod other {
    use super::Val;
    val!(u64, A, 11);
    pub fn e() -> super::Entry {
        super::entry::<A>("other::A")
    }
}
val!(u64, A, 7);
val!(u64, B, 0);
/// Types of the same name and size among them.
fn table() -> Vec<Entry> {
    let mut t = vec![
        entry::<A>("A"),
        other::e(),
        entry::<B>("B"),
        entry::<G<u8>>("G<u8>"),
        entry::<G<u16>>("G<u16>"),
        entry::<G<&'static str>>("G<str>"),
        entry::<Vec<u64>>("Vec"),
        entry::<String>("String"),
        entry::<u64>("u64"),
    ];
    {
        val!(u64, A, 21);
        t.push(entry::<A>("table::A #1"));
    }
    {
        val!(u64, A, 22);
        t.push(entry::<A>("table::A #2"));
    }
    t
}

/// What every type must hold, per run.
#[derive(Default)]
struct Model {
    runs: HashMap<usize, HashMap<usize, u64>>,
    wrong: Option<String>,
    done: usize,
}
thread_local! {
    static TABLE: Vec<Entry> = table();
    static MODEL: RefCell<Model> = RefCell::new(Model::default());
}
/// Access type .0; Some: get_mut and write.
type Op = (usize, Option<u64>);
fn run_ops(run: usize, ops: &[Op], wher: &str, go: impl Fn(&Entry, Option<u64>) -> u64) {
    for &(t, v) in ops {
        TABLE.with(|tab| {
            let got = go(&tab[t], v);
            MODEL.with(|m| {
                let mut m = m.borrow_mut();
                m.done += 1;
                let cell = m.runs.entry(run).or_default().entry(t).or_insert(tab[t].default);
                let want = *cell;
                if let Some(v) = v {
                    *cell = v;
                }
                if got != want && m.wrong.is_none() {
                    m.wrong = Some(format!("in {} of run {}: {} held {}, expected {}", wher, run, tab[t].name, got, want));
                }
            })
        })
    }
}
fn ser_ops(run: usize, ops: &[Op], wher: &str, s: &SerializerState) {
    run_ops(run, ops, wher, |e, v| (e.ser)(s, v))
}
fn de_ops(run: usize, ops: &[Op], wher: &str, s: &DeserializerState) {
    run_ops(run, ops, wher, |e, v| (e.de)(s, v))
}

#[derive(Debug, Clone)]
struct Prog {
    run: usize,
    kind: usize,
    /// in serialize, in the emitter, in finish
    ops: [Vec<Op>; 3],
    kids: Vec<Prog>,
}
struct Em<'a>(&'a Prog, usize);
impl<'a> Em<'a> {
    fn step(&mut self, s: &SerializerState) -> Option<&'a Prog> {
        ser_ops(self.0.run, &self.0.ops[1], "an emitter", s);
        self.1 += 1;
        self.0.kids.get(self.1 - 1)
    }
}
impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, s: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.step(s).map(|x| SerializeHandle::to(x)))
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, s: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.step(s).map(|x| SerializeHandle::to(x)))
    }
    fn next_value(&mut self, s: &SerializerState) -> Result<SerializeHandle, Error> {
        Ok(match self.step(s) {
            Some(x) => SerializeHandle::to(x),
            None => SerializeHandle::boxed(1u8),
        })
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, s: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        Ok(self.step(s).map(|x| (Cow::Borrowed("k"), SerializeHandle::to(x))))
    }
}
impl Serialize for Prog {
    fn serialize(&self, s: &SerializerState) -> Result<Chunk, Error> {
        ser_ops(self.run, &self.ops[0], "serialize", s);
        Ok(match self.kind {
            0 => Chunk::Atom(Atom::Null),
            1 => Chunk::Seq(Box::new(Em(self, 0))),
            2 => Chunk::Map(Box::new(Em(self, 0))),
            _ => Chunk::Struct(Box::new(Em(self, 0))),
        })
    }
    fn finish(&self, s: &SerializerState) -> Result<(), Error> {
        ser_ops(self.run, &self.ops[2], "finish", s);
        Ok(())
    }
}
fn prog(c: &mut Rng, run: usize, depth: usize) -> Prog {
    let n = TABLE.with(|t| t.len());
    let few = 1 + c.below(4);
    let mut ops = || (0..c.below(4)).map(|_| (if c.below(2) == 0 { c.below(few) } else { c.below(n) }, if c.below(2) == 0 { Some(c.next() % 1000) } else { None })).collect();
    let ops = [ops(), ops(), ops()];
    let kind = if depth == 0 { 0 } else { c.below(4) };
    let kids = if kind == 0 { vec![] } else { (0..c.below(4)).map(|_| prog(c, run, depth - 1)).collect() };
    Prog { run, kind, ops, kids }
}

struct Root(#[allow(dead_code)] ());
/// A sink that runs its operations in every call.
struct OpSink {
    run: usize,
    ops: Vec<Vec<Op>>,
    at: usize,
}
impl OpSink {
    fn go(&mut self, wher: &str, s: &DeserializerState) {
        let o = &self.ops[self.at % self.ops.len()];
        self.at += 1;
        de_ops(self.run, o, wher, s);
    }
    fn kid<'x>(&self) -> SinkHandle<'x> {
        SinkHandle::boxed(OpSink { run: self.run, ops: self.ops.clone(), at: self.at })
    }
}
impl Sink for OpSink {
    fn atom(&mut self, _: Atom, s: &DeserializerState) -> Result<(), Error> {
        self.go("atom", s);
        Ok(())
    }
    fn map(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.go("map", s);
        Ok(())
    }
    fn seq(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.go("seq", s);
        Ok(())
    }
    fn next_key(&mut self, s: &DeserializerState) -> Result<SinkHandle, Error> {
        self.go("next_key", s);
        Ok(self.kid())
    }
    fn next_value(&mut self, s: &DeserializerState) -> Result<SinkHandle, Error> {
        self.go("next_value", s);
        Ok(self.kid())
    }
    fn finish(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.go("finish", s);
        Ok(())
    }
}
thread_local! { static NEXT: RefCell<(usize, Vec<Vec<Op>>)> = RefCell::new((0, vec![])); }
impl Deserialize for Root {
    fn deserialize_into(_out: &mut Option<Self>) -> SinkHandle {
        let (run, ops) = NEXT.with(|n| n.borrow().clone());
        SinkHandle::boxed(OpSink { run, ops, at: 0 })
    }
}
fn events(c: &mut Rng, depth: usize, out: &mut Vec<Event<'static>>) {
    match if depth == 0 { 0 } else { c.below(3) } {
        0 => out.push(Event::Atom(Atom::Null)),
        1 => {
            out.push(Event::SeqStart);
            for _ in 0..c.below(4) {
                events(c, depth - 1, out);
            }
            out.push(Event::SeqEnd);
        }
        _ => {
            out.push(Event::MapStart);
            for _ in 0..c.below(3) {
                events(c, 0, out);
                events(c, depth - 1, out);
            }
            out.push(Event::MapEnd);
        }
    }
}
fn verdict() -> Result<(), String> {
    MODEL.with(|m| {
        let m = m.borrow();
        match &m.wrong {
            Some(w) => Err(w.clone()),
            None => Ok(()),
        }
    })
}

pub fn c31(c: &mut Ctx) {
    c.rule("values and sinks that read and write extension values of 11 types (equal names, generic instances) in every callback, runs interleaved two by two, against a model per run");
    let n = if c.thorough { 60000 } else { 6000 };
    for i in 0..n {
        if c.done() {
            break;
        }
        let seed = c.rng.next();
        let mut r = Rng(seed);
        if i % 2 == 0 {
            let ps = [prog(&mut r, 0, 3), prog(&mut r, 1, 3)];
            let input = format!("serialize {:?}", ps);
            c.check(&input, || {
                MODEL.with(|m| *m.borrow_mut() = Model::default());
                let mut ds = [SerializeDriver::new(&ps[0]), SerializeDriver::new(&ps[1])];
                let mut live = [true, true];
                while live[0] || live[1] {
                    let k = r.below(2);
                    if !live[k] {
                        continue;
                    }
                    let ops: Vec<Op> = (0..r.below(3)).map(|_| (r.below(4), if r.below(2) == 0 { Some(r.next() % 1000) } else { None })).collect();
                    if r.below(2) == 0 {
                        ser_ops(k, &ops, "state()", ds[k].state());
                    }
                    match ds[k].next().map_err(|e| e.to_string())? {
                        Some((_, _, s)) => ser_ops(k, &ops, "next()", s),
                        None => live[k] = false,
                    }
                }
                verdict()
            });
        } else {
            let ops: Vec<Vec<Op>> = (0..5).map(|_| (0..r.below(4)).map(|_| (r.below(11), if r.below(2) == 0 { Some(r.next() % 1000) } else { None })).collect()).collect();
            let mut evs = [vec![], vec![]];
            events(&mut r, 3, &mut evs[0]);
            events(&mut r, 3, &mut evs[1]);
            let input = format!("deserialize {:?} with operations {:?}", evs, ops);
            c.check(&input, || {
                MODEL.with(|m| *m.borrow_mut() = Model::default());
                let mut outs = [None::<Root>, None::<Root>];
                let [o0, o1] = &mut outs;
                NEXT.with(|n| *n.borrow_mut() = (0, ops.clone()));
                let d0 = DeserializeDriver::new(o0);
                NEXT.with(|n| *n.borrow_mut() = (1, ops.clone()));
                let d1 = DeserializeDriver::new(o1);
                let mut ds = [d0, d1];
                let mut at = [0, 0];
                while at[0] < evs[0].len() || at[1] < evs[1].len() {
                    let k = r.below(2);
                    if at[k] >= evs[k].len() {
                        continue;
                    }
                    if r.below(2) == 0 {
                        de_ops(k, &ops[at[k] % ops.len()], "state()", ds[k].state());
                    }
                    ds[k].emit(evs[k][at[k]].clone()).map_err(|e| e.to_string())?;
                    at[k] += 1;
                }
                verdict()
            });
        }
    }
    // long histories
    for len in [10usize, 1000, 20000] {
        let seed = c.rng.next();
        c.check(&format!("history of {} accesses, seed {}", len, seed), || {
            let mut r = Rng(seed);
            MODEL.with(|m| *m.borrow_mut() = Model::default());
            let p = Prog { run: 0, kind: 0, ops: [(0..len).map(|_| (r.below(11), if r.below(3) == 0 { Some(r.next() % 100000) } else { None })).collect(), vec![], vec![]], kids: vec![] };
            let mut d = SerializeDriver::new(&p);
            while d.next().map_err(|e| e.to_string())?.is_some() {}
            verdict()
        });
    }
}
