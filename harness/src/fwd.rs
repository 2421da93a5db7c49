//! Options and boxes forward every call to the sink inside (C14): calls made on
//! a wrapped recording sink and on the bare one must give the same.
use crate::ctx::*;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error, ErrorKind};
use std::borrow::Cow;
use std::cell::RefCell;

thread_local! {
    static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static FAIL: RefCell<Option<usize>> = RefCell::new(None);
}
fn log(s: String) -> Result<(), Error> {
    let n = LOG.with(|l| {
        l.borrow_mut().push(s);
        l.borrow().len()
    });
    if FAIL.with(|f| *f.borrow()) == Some(n) { Err(Error::new(ErrorKind::OutOfRange, "told to fail")) } else { Ok(()) }
}
struct ProbeDescriptor;
impl Descriptor for ProbeDescriptor {
    fn name(&self) -> Option<&str> {
        Some("Probe")
    }
    fn precision(&self) -> Option<usize> {
        Some(77)
    }
    fn unordered(&self) -> bool {
        true
    }
}
struct Probe(u32);
struct ProbeSink<'a> {
    out: &'a mut Option<Probe>,
    seen: u32,
}
struct Child(String);
impl Sink for Child {
    fn atom(&mut self, a: Atom, _: &DeserializerState) -> Result<(), Error> {
        log(format!("{}.atom {:?}", self.0, a))
    }
}
impl Deserialize for Probe {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(ProbeSink { out, seen: 0 })
    }
}
impl<'a> Sink for ProbeSink<'a> {
    fn atom(&mut self, a: Atom, _: &DeserializerState) -> Result<(), Error> {
        self.seen += 1;
        log(format!("atom {:?}", a))
    }
    fn map(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.seen += 10;
        log(format!("map at {}", s.depth()))
    }
    fn seq(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.seen += 100;
        log(format!("seq at {}", s.depth()))
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        self.seen += 1000;
        log("next_key".into())?;
        Ok(SinkHandle::boxed(Child("key".into())))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        self.seen += 10000;
        log("next_value".into())?;
        Ok(SinkHandle::boxed(Child("value".into())))
    }
    fn value_for_key(&mut self, key: &str, _: &DeserializerState) -> Result<Option<SinkHandle>, Error> {
        self.seen += 100000;
        log(format!("value_for_key {}", key))?;
        Ok(if key.len() % 2 == 1 { Some(SinkHandle::boxed(Child(format!("for {}", key)))) } else { None })
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        log("finish".into())?;
        *self.out = Some(Probe(self.seen));
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &ProbeDescriptor
    }
    fn expecting(&self) -> Cow<'_, str> {
        Cow::Owned(format!("a probe that saw {}", self.seen))
    }
}
trait Inner: Deserialize {
    fn probe(self) -> Option<u32>;
}
impl Inner for Probe {
    fn probe(self) -> Option<u32> {
        Some(self.0)
    }
}
impl<T: Inner> Inner for Box<T> {
    fn probe(self) -> Option<u32> {
        (*self).probe()
    }
}
impl<T: Inner> Inner for Option<T> {
    fn probe(self) -> Option<u32> {
        self.and_then(|x| x.probe())
    }
}
const OPS: [&str; 10] = ["atom str", "atom u64", "map", "seq", "next_key", "next_value", "value_for_key a", "value_for_key ab", "describe", "finish"];
const DESCRIBE: usize = 8;
fn shown(r: Result<(), Error>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => format!("{:?}", e.kind()),
    }
}
fn calls<T: Inner>(ops: &[usize], fail: Option<usize>) -> Vec<String> {
    LOG.with(|l| l.borrow_mut().clear());
    FAIL.with(|f| *f.borrow_mut() = fail);
    let mut dummy = None::<()>;
    let d = DeserializeDriver::new(&mut dummy);
    let s = d.state();
    let mut out: Option<T> = None;
    let mut res = Vec::new();
    {
        let mut h = T::deserialize_into(&mut out);
        let touch = |r: Result<SinkHandle, Error>| match r {
            Ok(mut k) => format!("handle {}", shown(k.atom(Atom::Bool(true), s))),
            Err(e) => format!("{:?}", e.kind()),
        };
        for &o in ops {
            res.push(match OPS[o] {
                "atom str" => shown(h.atom(Atom::Str(Cow::Borrowed("x")), s)),
                "atom u64" => shown(h.atom(Atom::U64(9), s)),
                "map" => shown(h.map(s)),
                "seq" => shown(h.seq(s)),
                "next_key" => touch(h.next_key(s)),
                "next_value" => touch(h.next_value(s)),
                "finish" => shown(h.finish(s)),
                "describe" => format!("{:?} {:?} {}", h.descriptor().name(), h.descriptor().precision(), h.descriptor().unordered()),
                x => match h.value_for_key(&x[14..], s) {
                    Ok(None) => "no handle".into(),
                    Ok(Some(k)) => touch(Ok(k)),
                    Err(e) => format!("{:?}", e.kind()),
                },
            });
            // nobody calls a sink that failed again
            if res.last().unwrap().starts_with("OutOfRange") {
                break;
            }
        }
    }
    res.push(format!("value {:?}", out.and_then(|x| x.probe())));
    res.push(format!("inner calls: {:?}", LOG.with(|l| l.borrow().clone())));
    res
}
fn check<T: Inner>(c: &mut Ctx, name: &str, ops: &[usize], fail: Option<usize>) {
    let shown_ops: Vec<&str> = ops.iter().map(|o| OPS[*o]).collect();
    let input = format!("{} sink, calls {:?}, inner sink fails at its call {:?}", name, shown_ops, fail);
    c.case(|| input.clone(), input.as_bytes(), true, || {
        let want = calls::<Probe>(ops, fail);
        let got = calls::<T>(ops, fail);
        // messages of what is expected are no part of the property
        if got == want { Ok(()) } else { Err(format!("got {:?}, the bare sink gives {:?}", got, want)) }
    });
}
pub fn c14(c: &mut Ctx) {
    c.rule("every sequence of up to 3 (thorough: 4) calls on Option and Box around a recording sink compared with the bare sink, the inner sink failing at every point");
    let max = if c.thorough { 4 } else { 3 };
    for n in 1..=max {
        let mut ops = vec![0usize; n];
        loop {
            let mut o = ops.clone();
            o.push(OPS.len() - 1);
            // what the protocol allows: an atom; a container and then its parts;
            // or only parts that are asked for by key (a flattened struct)
            let first = o.iter().position(|x| *x != DESCRIBE).unwrap();
            let legal = match OPS[o[first]] {
                "atom str" | "atom u64" => o[first + 1..n].iter().all(|x| *x == DESCRIBE),
                "map" | "seq" => o[first + 1..n].iter().all(|x| *x > 3 && *x <= DESCRIBE),
                "value_for_key a" => o[first + 1..n].iter().all(|x| *x > 5 && *x <= DESCRIBE),
                _ => false,
            };
            for fail in [None, Some(1), Some(2), Some(3)] {
                if !legal {
                    break;
                }
                check::<Option<Probe>>(c, "Option", &o, fail);
                check::<Box<Probe>>(c, "Box", &o, fail);
                if n < 3 {
                    check::<Option<Box<Probe>>>(c, "Option<Box>", &o, fail);
                    check::<Box<Option<Probe>>>(c, "Box<Option>", &o, fail);
                    check::<Box<Box<Probe>>>(c, "Box<Box>", &o, fail);
                    check::<Option<Option<Probe>>>(c, "Option<Option>", &o, fail);
                }
            }
            let mut i = 0;
            while i < n && ops[i] == OPS.len() - 1 {
                ops[i] = 0;
                i += 1;
            }
            if i == n {
                break;
            }
            ops[i] += 1;
        }
    }
}
