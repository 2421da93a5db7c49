//! Events, value trees and recording targets shared by the checks.
use deser::de::{Deserialize, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Atom, Error, Event, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Ev {
    Null,
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Char(char),
    U64(u64),
    I64(i64),
    F64(f64),
    MapStart,
    MapEnd,
    SeqStart,
    SeqEnd,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Ev) -> bool {
        use Ev::*;
        match (self, o) {
            (Null, Null) | (MapStart, MapStart) | (MapEnd, MapEnd) | (SeqStart, SeqStart) | (SeqEnd, SeqEnd) => true,
            (Bool(a), Bool(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Char(a), Char(b)) => a == b,
            (U64(a), U64(b)) => a == b,
            (I64(a), I64(b)) => a == b,
            (F64(a), F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            _ => false,
        }
    }
}

pub fn atom_ev(a: &Atom) -> Ev {
    match a {
        Atom::Null => Ev::Null,
        Atom::Bool(b) => Ev::Bool(*b),
        Atom::Str(s) => Ev::Str(s.to_string()),
        Atom::Bytes(b) => Ev::Bytes(b.to_vec()),
        Atom::Char(c) => Ev::Char(*c),
        Atom::U64(x) => Ev::U64(*x),
        Atom::I64(x) => Ev::I64(*x),
        Atom::F64(x) => Ev::F64(*x),
        _ => panic!("unknown atom"),
    }
}
pub fn event_ev(e: &Event) -> Ev {
    match e {
        Event::Atom(a) => atom_ev(a),
        Event::MapStart => Ev::MapStart,
        Event::MapEnd => Ev::MapEnd,
        Event::SeqStart => Ev::SeqStart,
        Event::SeqEnd => Ev::SeqEnd,
    }
}
pub fn to_event(e: &Ev) -> Event<'static> {
    match e {
        Ev::Null => Event::Atom(Atom::Null),
        Ev::Bool(b) => Event::Atom(Atom::Bool(*b)),
        Ev::Str(s) => Event::Atom(Atom::Str(Cow::Owned(s.clone()))),
        Ev::Bytes(s) => Event::Atom(Atom::Bytes(Cow::Owned(s.clone()))),
        Ev::Char(c) => Event::Atom(Atom::Char(*c)),
        Ev::U64(x) => Event::Atom(Atom::U64(*x)),
        Ev::I64(x) => Event::Atom(Atom::I64(*x)),
        Ev::F64(x) => Event::Atom(Atom::F64(*x)),
        Ev::MapStart => Event::MapStart,
        Ev::MapEnd => Event::MapEnd,
        Ev::SeqStart => Event::SeqStart,
        Ev::SeqEnd => Event::SeqEnd,
    }
}

// --- a target that accepts everything and records it -----------------------
thread_local! { pub static LOG: RefCell<Vec<Ev>> = RefCell::new(vec![]); }
pub fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e));
}
pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

#[derive(Debug)]
pub struct Rec;
enum Kind {
    None,
    Map,
    Seq,
}
struct RecSink<'a> {
    out: Option<&'a mut Option<Rec>>,
    kind: Kind,
}
impl Deserialize for Rec {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(RecSink { out: Some(out), kind: Kind::None })
    }
}
impl<'a> Sink for RecSink<'a> {
    fn atom(&mut self, atom: Atom, _state: &DeserializerState) -> Result<(), Error> {
        log(atom_ev(&atom));
        Ok(())
    }
    fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
        log(Ev::MapStart);
        self.kind = Kind::Map;
        Ok(())
    }
    fn seq(&mut self, _state: &DeserializerState) -> Result<(), Error> {
        log(Ev::SeqStart);
        self.kind = Kind::Seq;
        Ok(())
    }
    fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(SinkHandle::boxed(RecSink { out: None, kind: Kind::None }))
    }
    fn next_value(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(SinkHandle::boxed(RecSink { out: None, kind: Kind::None }))
    }
    fn finish(&mut self, _state: &DeserializerState) -> Result<(), Error> {
        match self.kind {
            Kind::None => {}
            Kind::Map => log(Ev::MapEnd),
            Kind::Seq => log(Ev::SeqEnd),
        }
        if let Some(o) = &mut self.out {
            **o = Some(Rec);
        }
        Ok(())
    }
}

// --- arbitrary value trees ---------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Atom(Ev),
    Seq(Vec<Tree>),
    Map(Vec<(Tree, Tree)>),
    Struct(Vec<(String, Tree)>),
}
impl Tree {
    pub fn events(&self, out: &mut Vec<Ev>) {
        match self {
            Tree::Atom(e) => out.push(e.clone()),
            Tree::Seq(xs) => {
                out.push(Ev::SeqStart);
                xs.iter().for_each(|x| x.events(out));
                out.push(Ev::SeqEnd);
            }
            Tree::Map(xs) => {
                out.push(Ev::MapStart);
                xs.iter().for_each(|(k, v)| {
                    k.events(out);
                    v.events(out)
                });
                out.push(Ev::MapEnd);
            }
            Tree::Struct(xs) => {
                out.push(Ev::MapStart);
                xs.iter().for_each(|(k, v)| {
                    out.push(Ev::Str(k.clone()));
                    v.events(out)
                });
                out.push(Ev::MapEnd);
            }
        }
    }
    pub fn evs(&self) -> Vec<Ev> {
        let mut o = vec![];
        self.events(&mut o);
        o
    }
}
struct SeqE<'a>(std::slice::Iter<'a, Tree>);
impl<'a> SeqEmitter for SeqE<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.0.next().map(SerializeHandle::to))
    }
}
struct MapE<'a>(std::slice::Iter<'a, (Tree, Tree)>, Option<&'a Tree>);
impl<'a> MapEmitter for MapE<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.0.next().map(|(k, v)| {
            self.1 = Some(v);
            SerializeHandle::to(k)
        }))
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle, Error> {
        Ok(SerializeHandle::to(self.1.take().unwrap()))
    }
}
struct StructE<'a>(std::slice::Iter<'a, (String, Tree)>);
impl<'a> StructEmitter for StructE<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        Ok(self.0.next().map(|(k, v)| (Cow::Borrowed(k.as_str()), SerializeHandle::to(v))))
    }
}
impl Serialize for Tree {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        Ok(match self {
            Tree::Atom(e) => match to_event(e) {
                Event::Atom(a) => Chunk::Atom(a),
                _ => unreachable!(),
            },
            Tree::Seq(xs) => Chunk::Seq(Box::new(SeqE(xs.iter()))),
            Tree::Map(xs) => Chunk::Map(Box::new(MapE(xs.iter(), None))),
            Tree::Struct(xs) => Chunk::Struct(Box::new(StructE(xs.iter()))),
        })
    }
}

/// All events of a serializable value.
pub fn ser_events(v: &dyn Serialize) -> Result<Vec<Ev>, String> {
    let mut d = SerializeDriver::new(v);
    let mut o = vec![];
    loop {
        match d.next() {
            Ok(Some((e, _, _))) => o.push(event_ev(&e)),
            Ok(None) => return Ok(o),
            Err(e) => return Err(format!("{:?}", e)),
        }
        if o.len() > 10_000_000 {
            return Err("endless event stream".into());
        }
    }
}
