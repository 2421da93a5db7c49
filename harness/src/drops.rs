//! The drivers let go of what they hold innermost first (C34).
use crate::ctx::*;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, OwnedSink, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Atom, Descriptor, Error, ErrorKind, Event, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What was made, from what, and what is gone.
#[derive(Default)]
struct Log {
    what: Vec<(&'static str, Option<usize>, bool)>,
    order: Vec<usize>,
    bad: Option<String>,
    calls: usize,
    fail: Option<(usize, bool)>,
}
thread_local!(static LOG: RefCell<Log> = RefCell::default());
struct Obj(usize);
fn log<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    LOG.with(|l| f(&mut l.borrow_mut()))
}
fn obj(what: &'static str, parent: Option<usize>) -> Obj {
    log(|l| {
        l.what.push((what, parent, false));
        Obj(l.what.len() - 1)
    })
}
impl Drop for Obj {
    fn drop(&mut self) {
        log(|l| {
            let (what, parent, gone) = l.what[self.0];
            if gone {
                l.bad.get_or_insert(format!("{} {} dropped twice", what, self.0));
            }
            if let Some(p) = parent.filter(|p| l.what[*p].2) {
                l.bad.get_or_insert(format!("{} {} dropped after {} {} it came from", what, self.0, l.what[p].0, p));
            }
            l.what[self.0].2 = true;
            l.order.push(self.0);
        })
    }
}
/// Every call into user code; one of them may fail or panic.  What the object called gave out is gone.
fn call(me: &Obj) -> Result<(), Error> {
    let f = log(|l| {
        if let Some(k) = l.what.iter().position(|w| w.1 == Some(me.0) && !w.2) {
            let x = format!("{} {} called while {} {} it gave is alive", l.what[me.0].0, me.0, l.what[k].0, k);
            l.bad.get_or_insert(x);
        }
        l.calls += 1;
        l.fail.filter(|f| f.0 == l.calls)
    });
    match f {
        Some((_, true)) => panic!("on purpose"),
        Some((_, false)) => Err(Error::new(ErrorKind::Unexpected, "on purpose")),
        None => Ok(()),
    }
}
/// Nothing may be alive; what was alive when the driver was dropped went in the reverse order of its making.
fn judge(live: Vec<usize>, from: usize, strict: bool) -> Result<(), String> {
    log(|l| {
        if let Some(x) = l.bad.take() {
            return Err(x);
        }
        for (k, w) in l.what.iter().enumerate() {
            if !w.2 {
                return Err(format!("{} {} is never dropped", w.0, k));
            }
        }
        let want: Vec<usize> = live.into_iter().rev().collect();
        if strict && l.order[from..] != want[..] {
            return Err(format!("dropped in the order {:?}, expected {:?}", &l.order[from..], want));
        }
        Ok(())
    })
}
fn live() -> (Vec<usize>, usize) {
    log(|l| ((0..l.what.len()).filter(|k| !l.what[*k].2).collect(), l.order.len()))
}

// ---- sinks -------------------------------------------------------------------
struct S(Obj, bool);
fn sink<'a>(parent: Option<usize>) -> SinkHandle<'a> {
    SinkHandle::boxed(S(obj("sink", parent), false))
}
impl Sink for S {
    fn atom(&mut self, _: Atom, _: &DeserializerState) -> Result<(), Error> {
        call(&self.0)
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        call(&self.0)
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        call(&self.0)
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        call(&self.0).map(|_| sink(Some((self.0).0)))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        call(&self.0).map(|_| sink(Some((self.0).0)))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.1 = true;
        call(&self.0)
    }
}
fn events(r: &mut Rng, depth: usize, out: &mut Vec<Event<'static>>) {
    match if depth == 0 { 0 } else { r.below(4) } {
        0 => out.push(1u64.into()),
        1 => {
            out.push(Event::SeqStart);
            for _ in 0..r.below(4) {
                events(r, depth - 1, out);
            }
            out.push(Event::SeqEnd);
        }
        _ => {
            out.push(Event::MapStart);
            for _ in 0..r.below(3) {
                events(r, r.0 as usize % 2 * (depth - 1), out);
                events(r, depth - 1, out);
            }
            out.push(Event::MapEnd);
        }
    }
}
fn fail_name(f: Option<(usize, bool)>) -> String {
    match f {
        None => "".into(),
        Some((k, p)) => format!(", call {} {}", k, if p { "panics" } else { "fails" }),
    }
}
/// What an owned sink makes; `T` only decides what the slot is made of.
struct Made<T>(#[allow(dead_code)] Option<T>);
#[derive(Clone, Copy)]
struct Bare;
impl<T> Deserialize for Made<T> {
    fn deserialize_into(_: &mut Option<Self>) -> SinkHandle {
        sink(None)
    }
}
/// An owned sink lets go of its sink, whatever the slot is made of and however far it got.
fn own<T>(evs: &[Event<'static>]) -> Result<(), String> {
    log(|l| *l = Log::default());
    let mut o = OwnedSink::<Made<T>>::deserialize();
    let state_of = DeserializeDriver::from_sink(sink(None));
    for e in evs {
        let s = state_of.state();
        let _ = match e {
            Event::Atom(a) => o.borrow_mut().atom(a.clone(), s),
            Event::MapStart => o.borrow_mut().map(s),
            Event::SeqStart => o.borrow_mut().seq(s),
            _ => o.borrow_mut().finish(s),
        };
    }
    drop(state_of);
    if o.take().is_some() || live().0.len() != 1 {
        return Err(format!("an owned sink holds {} sinks", live().0.len()));
    }
    drop(o);
    judge(vec![], 0, false)
}
fn feed<'a>(mut d: DeserializeDriver<'a>, evs: &[Event<'static>], strict: bool) -> Result<(), String> {
    for e in evs {
        if !matches!(catch_unwind(AssertUnwindSafe(|| d.emit(e.clone()))), Ok(Ok(()))) {
            break;
        }
    }
    let (alive, n) = live();
    drop(d);
    judge(alive, n, strict)
}
/// A target that holds something itself; its sink must go before it.
struct Held(#[allow(dead_code)] Obj);
struct HeldSink<'a>(&'a mut Option<Held>, Obj);
impl<'a> Sink for HeldSink<'a> {
    fn atom(&mut self, _: Atom, _: &DeserializerState) -> Result<(), Error> {
        call(&self.1)?;
        let o = obj("value", None);
        log(|l| l.what[(self.1).0].1 = Some(o.0));
        *self.0 = Some(Held(o));
        Ok(())
    }
}
impl Deserialize for Held {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(HeldSink(out, obj("sink", None)))
    }
}
fn into<T: Deserialize>(c: &mut Ctx, what: &str, evs: &[Event<'static>]) {
    for stop in 0..=evs.len() {
        for fail in [None, Some((1, false)), Some((2, true))] {
            let (input, evs) = (format!("{} fed {:?}{}", what, &evs[..stop], fail_name(fail)), evs.to_vec());
            c.case(|| input.clone(), input.as_bytes(), stop > 0, || {
                log(|l| *l = Log { fail, ..Log::default() });
                {
                    let mut out = None::<T>;
                    let mut d = DeserializeDriver::new(&mut out);
                    for e in &evs[..stop] {
                        if !matches!(catch_unwind(AssertUnwindSafe(|| d.emit(e.clone()))), Ok(Ok(()))) {
                            break;
                        }
                    }
                }
                judge(vec![], 0, false)
            });
        }
    }
}

// ---- values ------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Shape {
    Atom,
    Seq(Vec<Shape>),
    Map(Vec<(Shape, Shape)>),
    Struct(Vec<Shape>),
}
fn shape(r: &mut Rng, depth: usize) -> Shape {
    match if depth == 0 { 0 } else { r.below(4) } {
        0 => Shape::Atom,
        1 => Shape::Seq((0..r.below(4)).map(|_| shape(r, depth - 1)).collect()),
        2 => Shape::Map((0..r.below(3)).map(|_| (shape(r, depth - 1), shape(r, depth - 1))).collect()),
        _ => Shape::Struct((0..r.below(4)).map(|_| shape(r, depth - 1)).collect()),
    }
}
struct D;
impl Descriptor for D {}
struct V(Obj, Shape);
fn value(s: &Shape, parent: Option<usize>) -> V {
    V(obj("value", parent), s.clone())
}
struct E(Obj, Shape, usize);
impl Serialize for V {
    fn descriptor(&self) -> &dyn Descriptor {
        &D
    }
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        call(&self.0)?;
        let e = || Box::new(E(obj("emitter", Some((self.0).0)), self.1.clone(), 0));
        Ok(match &self.1 {
            Shape::Atom => Chunk::Atom(Atom::U64(1)),
            Shape::Seq(_) => Chunk::Seq(e()),
            Shape::Map(_) => Chunk::Map(e()),
            Shape::Struct(_) => Chunk::Struct(e()),
        })
    }
    fn finish(&self, _: &SerializerState) -> Result<(), Error> {
        call(&self.0)
    }
}
impl E {
    fn give(&mut self, k: usize) -> Result<Option<SerializeHandle<'_>>, Error> {
        call(&self.0)?;
        let i = self.2;
        let s = match &self.1 {
            Shape::Seq(v) | Shape::Struct(v) => v.get(i),
            Shape::Map(v) => v.get(i).map(|x| if k == 0 { &x.0 } else { &x.1 }),
            Shape::Atom => None,
        };
        let h = s.map(|s| SerializeHandle::boxed(value(s, Some((self.0).0))));
        self.2 += k;
        Ok(h)
    }
}
impl SeqEmitter for E {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        self.give(1)
    }
}
impl MapEmitter for E {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        self.give(0)
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        self.give(1).map(|x| x.unwrap())
    }
}
impl StructEmitter for E {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        self.give(1).map(|x| x.map(|x| ("key".into(), x)))
    }
}

pub fn c34(c: &mut Ctx) {
    c.rule("random nested event sequences into sinks and random nested values through emitters that own what they hand out; the driver is dropped after every number of events, after an error and after a panic of every call");
    let n = if c.thorough { 4000 } else { 250 };
    for round in 0..n {
        if c.done() {
            return;
        }
        let mut r = Rng(c.rng.next());
        let mut evs = vec![];
        while evs.len() < 2 {
            evs.clear();
            events(&mut r, 1 + round % 4, &mut evs);
        }
        let s = (0..).map(|_| shape(&mut r, 1 + round % 4)).find(|s| !matches!(s, Shape::Atom)).unwrap();
        let total = 3 * evs.len();
        let owned = format!("owned sinks given {} events", evs.len());
        c.case(|| owned.clone(), owned.as_bytes(), true, || {
            own::<Bare>(&evs)?;
            own::<Vec<u8>>(&evs)?;
            own::<()>(&evs)?;
            own::<String>(&evs)
        });
        for k in 0..total {
            let (stop, fail) = if k < evs.len() { (k + 1, None) } else { (evs.len(), Some((1 + r.below(total), r.below(2) == 0))) };
            let evs = &evs[..stop];
            let input = format!("sinks fed {:?}{}", evs, fail_name(fail));
            c.case(|| input.clone(), input.as_bytes(), true, || {
                log(|l| *l = Log { fail, ..Log::default() });
                feed(DeserializeDriver::from_sink(sink(None)), evs, true)
            });
        }
        for k in 0..24 {
            let (stop, fail) = if k % 3 < 2 { (r.below(24), None) } else { (1000, Some((1 + r.below(24), r.below(2) == 0))) };
            let input = format!("{:?} serialized for {} events{}", s, stop, fail_name(fail));
            c.case(|| input.clone(), input.as_bytes(), true, || {
                log(|l| *l = Log { fail, ..Log::default() });
                {
                    let root = value(&s, None);
                    let mut d = SerializeDriver::new(&root);
                    for _ in 0..stop {
                        if !matches!(catch_unwind(AssertUnwindSafe(|| d.next().map(|x| x.is_some()))), Ok(Ok(true))) {
                            break;
                        }
                    }
                    let (alive, n) = live();
                    drop(d);
                    // all but the root, which the driver does not own
                    let (alive, order) = (alive[1..].to_vec(), n);
                    log(|l| {
                        let want: Vec<usize> = alive.iter().rev().cloned().collect();
                        if l.order[order..] != want[..] && l.bad.is_none() {
                            let x = format!("dropped in the order {:?}, expected {:?}", &l.order[order..], want);
                            l.bad = Some(x);
                        }
                    });
                }
                judge(vec![], 0, false)
            });
        }
    }
    let one = [Event::from(1u64)];
    let seq = [Event::SeqStart, 1u64.into(), 2u64.into(), Event::SeqEnd];
    let map = [Event::MapStart, "a".into(), 1u64.into(), "b".into(), 2u64.into(), Event::MapEnd];
    into::<Held>(c, "Held", &one);
    into::<Option<Held>>(c, "Option of Held", &one);
    into::<Box<Held>>(c, "Box of Held", &one);
    into::<Vec<Held>>(c, "Vec of Held", &seq);
    into::<[Held; 2]>(c, "[Held; 2]", &seq);
    into::<[Held; 3]>(c, "[Held; 3]", &seq);
    into::<(Held, Held)>(c, "(Held, Held)", &seq);
    into::<(Held,)>(c, "(Held,)", &seq);
    into::<std::collections::BTreeMap<String, Held>>(c, "BTreeMap of Held", &map);
    into::<std::collections::HashMap<String, Held>>(c, "HashMap of Held", &map);
    into::<Option<Box<Vec<Held>>>>(c, "Option of Box of Vec of Held", &seq);
    #[cfg(feature = "derive")]
    {
        into::<TwoHeld>(c, "a struct of two Held", &map);
        into::<WrapHeld>(c, "a newtype of Held", &one);
    }
}
#[cfg(feature = "derive")]
#[derive(deser::Deserialize)]
#[allow(dead_code)]
struct TwoHeld {
    a: Held,
    b: Held,
}
#[cfg(feature = "derive")]
#[derive(deser::Deserialize)]
#[allow(dead_code)]
struct WrapHeld(Held);
