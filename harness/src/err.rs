//! What errors say and the default answers of sinks (C33).
use crate::ctx::*;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error, ErrorKind, Event};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const KINDS: [(ErrorKind, &str); 6] = [
    (ErrorKind::UnsupportedType, "UnsupportedType"),
    (ErrorKind::Unexpected, "Unexpected"),
    (ErrorKind::MissingField, "MissingField"),
    (ErrorKind::OutOfRange, "OutOfRange"),
    (ErrorKind::WrongLength, "WrongLength"),
    (ErrorKind::EndOfFile, "EndOfFile"),
];
fn check(e: &Error, k: (ErrorKind, &str), msg: &str, source: Option<&str>) -> Result<(), String> {
    if e.kind() != k.0 {
        return Err(format!("kind {:?}, expected {:?}", e.kind(), k.0));
    }
    eq("shown as", e.to_string(), format!("{}: {}", k.1, msg))?;
    eq("source", std::error::Error::source(e).map(|s| s.to_string()), source.map(|s| s.to_string()))
}
fn atoms() -> Vec<(Atom<'static>, &'static str)> {
    let mut v = vec![(Atom::Null, "null"), (Atom::Bool(true), "bool"), (Atom::Bool(false), "bool")];
    for s in ["", "x", "some text", "null"] {
        v.push((Atom::Str(Cow::Borrowed(s)), "string"));
        v.push((Atom::Str(Cow::Owned(s.to_string())), "string"));
        v.push((Atom::Bytes(Cow::Borrowed(s.as_bytes())), "bytes"));
    }
    for ch in ['\0', 'x', '\u{10ffff}'] {
        v.push((Atom::Char(ch), "char"));
    }
    for n in [0, 1, 255, 256, u64::MAX] {
        v.push((Atom::U64(n), "unsigned integer"));
    }
    for n in [i64::MIN, -1, 0, 1, i64::MAX] {
        v.push((Atom::I64(n), "signed integer"));
    }
    for n in [0.0, -1.5, f64::NAN, f64::INFINITY] {
        v.push((Atom::F64(n), "float"));
    }
    v
}
struct Named(Option<&'static str>);
impl Descriptor for Named {
    fn name(&self) -> Option<&str> {
        self.0
    }
}
/// Nothing but a descriptor.
struct Plain(Named);
impl Sink for Plain {
    fn descriptor(&self) -> &dyn Descriptor {
        &self.0
    }
}
/// Nothing at all.
struct Bare;
impl Sink for Bare {}
/// Nothing but what it expects.
struct Expects(String);
impl Sink for Expects {
    fn expecting(&self) -> Cow<'_, str> {
        Cow::Borrowed(&self.0)
    }
}
deser::make_slot_wrapper!(Slot);
/// A target whose sink says itself what it expects.
struct Even(#[allow(dead_code)] u64);
impl Sink for Slot<Even> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        match atom {
            Atom::U64(n) if n % 2 == 0 => {
                **self = Some(Even(n));
                Ok(())
            }
            other => self.unexpected_atom(other, state),
        }
    }
    fn expecting(&self) -> Cow<'_, str> {
        Cow::Borrowed("an even number")
    }
}
impl Deserialize for Even {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        Slot::make_handle(out)
    }
}
/// Gives the state to f.
struct Probe<'a>(&'a mut dyn FnMut(&DeserializerState) -> Result<(), String>, &'a mut Option<Result<(), String>>);
impl<'a> Sink for Probe<'a> {
    fn atom(&mut self, _: Atom, state: &DeserializerState) -> Result<(), Error> {
        *self.1 = Some((self.0)(state));
        Ok(())
    }
}
fn with_state(mut f: impl FnMut(&DeserializerState) -> Result<(), String>) -> Result<(), String> {
    let mut r = None;
    {
        let mut p = Probe(&mut f, &mut r);
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut p));
        d.emit(Event::from(())).map_err(|e| e.to_string())?;
    }
    r.unwrap_or(Err("the sink was not called".into()))
}
fn refused(what: &str, r: Result<(), Error>, got: &str, expected: &str) -> Result<(), String> {
    match r {
        Ok(()) => Err(format!("{} accepted", what)),
        Err(e) => check(&e, KINDS[1], &format!("unexpected {}, expected {}", got, expected), None),
    }
}
fn defaults<S: Sink>(c: &mut Ctx, what: &str, expected: &str, mk: impl Fn() -> S) {
    for (a, name) in atoms() {
        c.case(|| format!("{:?} into a sink that {}", a, what), format!("{:?} {}", a, what).as_bytes(), true, || {
            with_state(|st| refused("atom", mk().atom(a.clone(), st), name, expected))?;
            with_state(|st| refused("atom", mk().unexpected_atom(a.clone(), st), name, expected))?;
            with_state(|st| refused("atom", SinkHandle::boxed(mk()).atom(a.clone(), st), name, expected))
        });
    }
    c.case(|| format!("a sink that {}", what), what.as_bytes(), true, || {
        eq("expecting", mk().expecting().to_string(), expected.to_string())?;
        with_state(|st| refused("map", mk().map(st), "map", expected))?;
        with_state(|st| refused("sequence", mk().seq(st), "sequence", expected))?;
        with_state(|st| {
            let mut s = mk();
            let show = |e: Error| e.to_string();
            for _ in 0..3 {
                for k in [true, false] {
                    let mut h = if k { s.next_key(st) } else { s.next_value(st) }.map_err(show)?;
                    eq("ignores", matches!(h, SinkHandle::Null(_)), true)?;
                    h.atom(Atom::U64(1), st).map_err(show)?;
                }
            }
            for k in ["", "a", "key"] {
                eq("claims a key", s.value_for_key(k, st).map_err(show)?.is_some(), false)?;
            }
            s.finish(st).map_err(show)
        })
    });
}
/// Every refusal of a target of the library says what came and what was expected.
fn target<T: Deserialize>(c: &mut Ctx, what: &str, says: Option<&str>) {
    let mut slot = None::<T>;
    let expected = says.map(|x| x.to_string()).unwrap_or_else(|| T::deserialize_into(&mut slot).descriptor().name().unwrap_or("compatible type").to_string());
    let mut slot = None::<T>;
    c.case(|| format!("what {} expects", what), what.as_bytes(), true, || {
        let says = T::deserialize_into(&mut slot).expecting().to_string();
        eq("expecting", says, expected.clone())
    });
    let mut all: Vec<(Event<'static>, &str)> = atoms().into_iter().map(|(a, n)| (Event::Atom(a), n)).collect();
    all.push((Event::MapStart, "map"));
    all.push((Event::SeqStart, "sequence"));
    for (e, name) in all {
        c.case(|| format!("{:?} into {}", e, what), format!("{:?} {}", e, what).as_bytes(), true, || {
            let mut out = None::<T>;
            let mut d = DeserializeDriver::new(&mut out);
            match d.emit(e.clone()) {
                Err(x) if x.kind() == ErrorKind::Unexpected => check(&x, KINDS[1], &format!("unexpected {}, expected {}", name, expected), None),
                _ => Ok(()),
            }
        });
    }
}
#[derive(Debug)]
struct Cause(String);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Cause {}

pub fn c33(c: &mut Ctx) {
    for k in KINDS {
        for m in ["", "x", "a {} b", "value: \"q\"\n", "ß\u{10ffff}", "a rather long message that goes on for a while"] {
            c.case(|| format!("an error {} with message {:?}", k.1, m), format!("{} {}", k.1, m).as_bytes(), true, || {
                check(&Error::new(k.0, m), k, m, None)?;
                check(&Error::new(k.0, m.to_string()), k, m, None)?;
                check(&Error::new(k.0, Cow::Borrowed(m)), k, m, None)?;
                check(&Error::new(k.0, Cow::Owned(m.to_string())), k, m, None)?;
                let one = || Error::new(k.0, m).with_source(Cause("first".into()));
                check(&one(), k, m, Some("first"))?;
                check(&one().with_source(Cause("second".into())), k, m, Some("second"))?;
                check(&Error::new(k.0, m).with_source(one()), k, m, Some(&one().to_string()))?;
                check(&Error::new(k.0, m).with_source(Error::new(ErrorKind::EndOfFile, "inner")), k, m, Some("EndOfFile: inner"))
            });
        }
    }
    for (a, name) in atoms() {
        for e in ["", "bool", "a {} thing", "compatible type"] {
            c.case(|| format!("{:?} expecting {:?}", a, e), format!("{:?} {}", a, e).as_bytes(), true, || {
                eq("name", a.name(), name)?;
                check(&a.unexpected_error(e), KINDS[1], &format!("unexpected {}, expected {}", name, e), None)
            });
        }
    }
    #[cfg(feature = "derive")]
    for n in ["", "a", "a_b", "ß"] {
        c.case(|| format!("a missing field {:?}", n), n.as_bytes(), true, || {
            check(&deser::__derive::new_missing_field_error(n), KINDS[2], &format!("Missing field '{}'", n), None)
        });
    }
    defaults(c, "has no method of its own", "compatible type", || Bare);
    defaults(c, "has a descriptor without a name", "compatible type", || Plain(Named(None)));
    for n in ["", "thing", "a {} thing"] {
        defaults(c, &format!("is a {:?}", n), n, || Plain(Named(Some(n))));
        defaults(c, &format!("expects {:?}", n), n, || Expects(n.to_string()));
    }
    macro_rules! t { ($($t:ty),* $(,)?) => { $( target::<$t>(c, stringify!($t), None); target::<Box<$t>>(c, concat!("Box of ", stringify!($t)), None); target::<Option<$t>>(c, concat!("Option of ", stringify!($t)), None); )* } }
    t!((), bool, char, String, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, Vec<u8>, Vec<String>, [u8; 3], [u16; 3], (u8, u8), (String,));
    t!(BTreeMap<String, u8>, HashMap<u8, u8>, BTreeSet<u8>, HashSet<String>, Vec<Vec<u8>>, Box<Vec<u8>>);
    let e = Some("an even number");
    target::<Even>(c, "Even", e);
    target::<Box<Even>>(c, "Box of Even", e);
    target::<Box<Box<Even>>>(c, "Box of Box of Even", e);
    for n in ["", "thing"] {
        c.case(|| format!("a path sink around one that expects {:?}", n), n.as_bytes(), true, || {
            let mut s = Expects(n.to_string());
            eq("expecting", deser_path::PathSink::wrap(&mut s).expecting().to_string(), n.to_string())?;
            let mut s = Expects(n.to_string());
            let says = deser_path::PathSink::wrap_ref(SinkHandle::to(&mut s)).expecting().to_string();
            eq("expecting", says, n.to_string())
        });
    }
}
