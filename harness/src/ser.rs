//! Values into events (C15, C16, C19) and the serialize driver (C17).
use crate::ctx::*;
use crate::de::*;
use crate::model::*;
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Descriptor, Error, ErrorKind, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;

/// What the events of a value must be.
pub trait ToTree {
    fn tree(&self) -> Tree;
    /// An absent optional (None, unit).
    fn absent(&self) -> bool {
        false
    }
}
macro_rules! scalars { ($($t:ty, $x:ident => $e:expr;)*) => { $(impl ToTree for $t { fn tree(&self) -> Tree { let $x = self; Tree::Atom($e) } })* } }
scalars! {
    u8, x => Ev::U64(*x as u64); u16, x => Ev::U64(*x as u64); u32, x => Ev::U64(*x as u64); u64, x => Ev::U64(*x); usize, x => Ev::U64(*x as u64);
    i8, x => Ev::I64(*x as i64); i16, x => Ev::I64(*x as i64); i32, x => Ev::I64(*x as i64); i64, x => Ev::I64(*x); isize, x => Ev::I64(*x as i64);
    f32, x => Ev::F64(*x as f64); f64, x => Ev::F64(*x); bool, x => Ev::Bool(*x); char, x => Ev::Char(*x);
    String, x => Ev::Str(x.clone()); &str, x => Ev::Str(x.to_string()); Cow<'_, str>, x => Ev::Str(x.to_string());
}
impl ToTree for () {
    fn tree(&self) -> Tree {
        Tree::Atom(Ev::Null)
    }
    fn absent(&self) -> bool {
        true
    }
}
impl<T: ToTree> ToTree for Option<T> {
    fn tree(&self) -> Tree {
        match self {
            None => Tree::Atom(Ev::Null),
            Some(x) => x.tree(),
        }
    }
    fn absent(&self) -> bool {
        self.is_none()
    }
}
impl<T: ToTree> ToTree for Box<T> {
    fn tree(&self) -> Tree {
        (**self).tree()
    }
    fn absent(&self) -> bool {
        (**self).absent()
    }
}
impl<'a, T: ToTree> ToTree for &'a mut T {
    fn tree(&self) -> Tree {
        (**self).tree()
    }
    fn absent(&self) -> bool {
        (**self).absent()
    }
}
pub struct Ref<'a, T>(pub &'a T);
impl<'a, T: ToTree> ToTree for Ref<'a, T> {
    fn tree(&self) -> Tree {
        self.0.tree()
    }
    fn absent(&self) -> bool {
        self.0.absent()
    }
}
impl<'a, T: Serialize> Serialize for Ref<'a, T> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        <&T as Serialize>::serialize(&self.0, state)
    }
    fn is_optional(&self) -> bool {
        <&T as Serialize>::is_optional(&self.0)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        <&T as Serialize>::finish(&self.0, state)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        <&T as Serialize>::descriptor(&self.0)
    }
}
fn elems<'a, T: ToTree + 'static>(xs: impl Iterator<Item = &'a T>) -> Tree {
    let v: Vec<Tree> = xs.map(|x| x.tree()).collect();
    if std::any::TypeId::of::<T>() == std::any::TypeId::of::<u8>() {
        Tree::Atom(Ev::Bytes(v.iter().map(|x| if let Tree::Atom(Ev::U64(n)) = x { *n as u8 } else { unreachable!() }).collect()))
    } else {
        Tree::Seq(v)
    }
}
impl<T: ToTree + 'static> ToTree for Vec<T> {
    fn tree(&self) -> Tree {
        elems(self.iter())
    }
}
impl<'a, T: ToTree + 'static> ToTree for &'a [T] {
    fn tree(&self) -> Tree {
        elems(self.iter())
    }
}
impl<T: ToTree + 'static, const N: usize> ToTree for [T; N] {
    fn tree(&self) -> Tree {
        elems(self.iter())
    }
}
impl<T: ToTree> ToTree for BTreeSet<T> {
    fn tree(&self) -> Tree {
        Tree::Seq(self.iter().map(|x| x.tree()).collect())
    }
}
impl<T: ToTree> ToTree for HashSet<T> {
    fn tree(&self) -> Tree {
        Tree::Seq(self.iter().map(|x| x.tree()).collect())
    }
}
impl<K: ToTree, V: ToTree> ToTree for BTreeMap<K, V> {
    fn tree(&self) -> Tree {
        Tree::Map(self.iter().map(|(k, v)| (k.tree(), v.tree())).collect())
    }
}
impl<K: ToTree, V: ToTree> ToTree for HashMap<K, V> {
    fn tree(&self) -> Tree {
        Tree::Map(self.iter().map(|(k, v)| (k.tree(), v.tree())).collect())
    }
}
macro_rules! tuples { ($(($($t:ident $i:tt),*))*) => { $(impl<$($t: ToTree),*> ToTree for ($($t,)*) { fn tree(&self) -> Tree { Tree::Seq(vec![$(self.$i.tree()),*]) } })* } }
tuples! { (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4) (A 0, B 1, C 2, D 3, E 4, F 5) (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11) }

pub fn chk<T: Serialize + ToTree>(c: &mut Ctx, what: &str, v: &T) {
    let want = v.tree().evs();
    c.case(
        || format!("{} with the events {}", what, short(&want)),
        format!("{}{:?}", what, want).as_bytes(),
        true,
        || {
            eq("events", ser_events(v)?, want.clone())?;
            eq("is_optional", Serialize::is_optional(v), v.absent())?;
            eq("events behind &", ser_events(&Ref(v))?, want.clone())?;
            eq("is_optional behind &", Serialize::is_optional(&Ref(v)), v.absent())
        },
    );
}
/// A random value of a type, made by deserializing a fitting tree.
pub fn try_val<T: Model>(c: &mut Ctx, tries: u32) -> Option<T> {
    for i in 0..tries {
        set_pure(true);
        let t = T::gen(&mut c.rng, 4 - 4 * i / tries);
        set_pure(false);
        if let Ok(v) = T::model(&t) {
            return Some(v);
        }
    }
    None
}
pub fn rand_val<T: Model>(c: &mut Ctx) -> T {
    try_val(c, 10_000).unwrap_or_else(|| {
        eprintln!("no value of {}", T::name());
        std::process::exit(3)
    })
}
pub fn run<T: Model + Serialize + ToTree>(c: &mut Ctx, n: usize) {
    for _ in 0..if c.thorough { n * 20 } else { n } {
        if c.done() {
            return;
        }
        let v: T = rand_val(c);
        chk(c, &T::name(), &v);
    }
}
// --- a value that reports calls of its methods -----------------------------
thread_local! { pub static CALLS: RefCell<Vec<String>> = RefCell::new(vec![]); }
pub fn call(s: String) {
    CALLS.with(|c| c.borrow_mut().push(s));
}
pub fn calls() -> Vec<String> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
pub struct Hooked(pub bool);
struct HookDesc;
impl Descriptor for HookDesc {
    fn name(&self) -> Option<&str> {
        Some("hooked")
    }
    fn precision(&self) -> Option<usize> {
        Some(77)
    }
    fn unordered(&self) -> bool {
        true
    }
}
impl Serialize for Hooked {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        call("serialize".into());
        Ok(Chunk::Atom(deser::Atom::U64(1)))
    }
    fn finish(&self, _: &SerializerState) -> Result<(), Error> {
        call("finish".into());
        Ok(())
    }
    fn is_optional(&self) -> bool {
        self.0
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &HookDesc
    }
}
pub fn hooked(c: &mut Ctx, what: &str, v: &dyn Serialize, optional: bool, desc: bool) {
    c.case(
        || format!("{} around a value with hooks (optional: {})", what, optional),
        format!("{}{}", what, optional).as_bytes(),
        true,
        || {
            calls();
            eq("events", ser_events(v)?, vec![Ev::U64(1)])?;
            eq("calls", calls(), vec!["serialize".to_string(), "finish".to_string()])?;
            eq("is_optional", v.is_optional(), optional)?;
            if desc {
                let d = v.descriptor();
                eq("descriptor", (d.name(), d.precision(), d.unordered()), (Some("hooked"), Some(77), true))?;
            }
            Ok(())
        },
    );
}
pub fn c15(c: &mut Ctx) {
    c.rule("boundary and random values of every scalar type; options, references and boxes in every nesting to depth 3 around values with hooks, optionality and descriptor");
    macro_rules! ints { ($($t:ident)*) => { $(
        for &i in INTS { for s in [i, -i, i + 1, -i - 1] { if let Ok(x) = $t::try_from(s) { chk(c, stringify!($t), &x); } } }
        for _ in 0..500 { let x = c.rng.next() as $t; chk(c, stringify!($t), &x); }
    )* } }
    ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    for x in 0..=255u8 {
        chk(c, "u8", &x);
        chk(c, "i8", &(x as i8));
    }
    for &f in FLOATS {
        chk(c, "f64", &f);
        chk(c, "f32", &(f as f32));
    }
    let n = if c.thorough { 200_000 } else { 3000 };
    for _ in 0..n {
        let b = c.rng.next();
        chk(c, "f64", &f64::from_bits(b));
        chk(c, "f32", &f32::from_bits(b as u32));
        if let Some(ch) = char::from_u32(b as u32 % 0x110000) {
            chk(c, "char", &ch);
        }
        let s = rand_str(&mut c.rng);
        chk(c, "String", &s);
        chk(c, "&str", &s.as_str());
        chk(c, "Cow::Borrowed", &Cow::Borrowed(s.as_str()));
        chk(c, "Cow::Owned", &Cow::<str>::Owned(s.clone()));
    }
    for x in [true, false] {
        chk(c, "bool", &x);
    }
    chk(c, "()", &());
    run::<Option<u8>>(c, 50);
    run::<Option<()>>(c, 10);
    run::<Option<String>>(c, 50);
    run::<Option<Option<i8>>>(c, 50);
    run::<Box<i64>>(c, 50);
    run::<Box<Option<u8>>>(c, 50);
    run::<Option<Box<u8>>>(c, 50);
    run::<Box<Vec<u8>>>(c, 50);
    run::<Option<Vec<Option<u16>>>>(c, 100);
    run::<Option<Box<Option<()>>>>(c, 20);
    run::<Box<BTreeMap<String, Option<u8>>>>(c, 50);
    for &f in FLOATS {
        chk(c, "Option<f32>", &Some(f as f32));
        chk(c, "Box<f64>", &Box::new(f));
    }
    for o in [false, true] {
        let h = Hooked(o);
        hooked(c, "itself", &h, o, true);
        hooked(c, "&", &&h, o, true);
        hooked(c, "&&", &&&h, o, true);
        hooked(c, "&mut", &&mut Hooked(o), o, true);
        hooked(c, "Box", &Box::new(Hooked(o)), o, true);
        hooked(c, "&Box", &&Box::new(Hooked(o)), o, true);
        hooked(c, "Box<Box>", &Box::new(Box::new(Hooked(o))), o, true);
        hooked(c, "Box<&mut &>", &Box::new(&mut &h), o, true);
        hooked(c, "Some", &Some(Hooked(o)), false, false);
        hooked(c, "Some<&>", &Some(&h), false, false);
        hooked(c, "&Some", &&Some(Hooked(o)), false, false);
        hooked(c, "Box<Some<Box>>", &Box::new(Some(Box::new(Hooked(o)))), false, false);
        hooked(c, "Some<Some>", &Some(Some(Hooked(o))), false, false);
    }
}
pub fn c16(c: &mut Ctx) {
    c.rule("random collections (0..20 elements) of every kind with scalar, option, byte and nested elements; every length of slices and arrays to 40; large collections");
    run::<Vec<u32>>(c, 500);
    run::<Vec<String>>(c, 300);
    run::<Vec<Option<Vec<u16>>>>(c, 300);
    run::<Vec<Vec<Vec<bool>>>>(c, 300);
    run::<Vec<()>>(c, 50);
    run::<BTreeSet<String>>(c, 300);
    run::<BTreeSet<u8>>(c, 300);
    run::<BTreeSet<Vec<u16>>>(c, 200);
    run::<HashSet<u8>>(c, 300);
    run::<HashSet<String>>(c, 300);
    run::<BTreeMap<String, u32>>(c, 500);
    run::<BTreeMap<u8, Option<Vec<u8>>>>(c, 300);
    run::<BTreeMap<(u8, bool), BTreeMap<char, i8>>>(c, 300);
    run::<BTreeMap<BTreeSet<u8>, ()>>(c, 200);
    run::<HashMap<String, Vec<u16>>>(c, 300);
    run::<HashMap<u8, HashMap<u8, u8>>>(c, 300);
    run::<HashMap<(), u8>>(c, 30);
    run::<(u8,)>(c, 30);
    run::<(u8, String)>(c, 100);
    run::<(u8, Vec<u8>, Vec<i8>, Option<u8>)>(c, 100);
    run::<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, String, Vec<u8>)>(c, 100);
    run::<[u16; 3]>(c, 100);
    run::<[String; 2]>(c, 100);
    run::<[[bool; 2]; 3]>(c, 100);
    run::<[(u8, u16); 2]>(c, 100);
    run::<[Vec<u16>; 1]>(c, 50);
    chk(c, "tuple", &(1u8, 2u8, 3u8));
    chk(c, "tuple", &(1u8, 2u8, 3u8, 4u8));
    chk(c, "tuple", &(1u8, 2u8, 3u8, 4u8, 5u8));
    chk(c, "tuple", &(1u8, 2u8, 3u8, 4u8, 5u8, 6u8));
    chk(c, "tuple", &(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8));
    chk(c, "tuple", &(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8));
    chk(c, "tuple", &(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8));
    chk(c, "tuple", &(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8));
    chk(c, "tuple", &(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8));
    chk(c, "tuple", &(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8, 12u8));
    for n in (0..40usize).chain([128, 129, 1000, 50_000]) {
        let v: Vec<u32> = (0..n as u32).collect();
        let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        chk(c, "Vec", &v);
        chk(c, "slice", &&v[..]);
        chk(c, "slice of String", &&s[..]);
        chk(c, "slice of options", &&v.iter().map(|x| if x % 3 == 0 { None } else { Some(*x as i64) }).collect::<Vec<_>>()[..]);
        chk(c, "BTreeSet", &v.iter().cloned().collect::<BTreeSet<_>>());
        chk(c, "HashSet", &v.iter().cloned().collect::<HashSet<_>>());
        chk(c, "BTreeMap", &v.iter().map(|x| (*x, x + 1)).collect::<BTreeMap<_, _>>());
        chk(c, "HashMap", &v.iter().map(|x| (*x, x + 1)).collect::<HashMap<_, _>>());
    }
    macro_rules! arr { ($($n:literal)*) => { $( { let a: [u32; $n] = std::array::from_fn(|i| i as u32); chk(c, stringify!([u32; $n]), &a); let a: [Option<i8>; $n] = std::array::from_fn(|i| if i % 2 == 0 { None } else { Some(i as i8) }); chk(c, "array of options", &a); } )* } }
    arr!(0 1 2 3 4 8 31 32 33 64);
}
/// C19: only u8 elements take the bytes form.
pub fn bytes(c: &mut Ctx) {
    for n in 0..40usize {
        let v: Vec<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
        chk(c, "Vec<u8>", &v);
        chk(c, "&[u8]", &&v[..]);
        chk(c, "Vec<i8>", &v.iter().map(|x| *x as i8).collect::<Vec<_>>());
        chk(c, "&[i8]", &&v.iter().map(|x| *x as i8).collect::<Vec<_>>()[..]);
        chk(c, "Vec<u16>", &v.iter().map(|x| *x as u16).collect::<Vec<_>>());
        chk(c, "Vec<u32>", &v.iter().map(|x| *x as u32).collect::<Vec<_>>());
        chk(c, "Vec<u64>", &v.iter().map(|x| *x as u64).collect::<Vec<_>>());
        chk(c, "Vec<bool>", &v.iter().map(|x| *x > 9).collect::<Vec<_>>());
        chk(c, "Vec<char>", &v.iter().map(|x| *x as char).collect::<Vec<_>>());
        chk(c, "Vec<()>", &vec![(); n]);
        chk(c, "Vec<Option<u8>>", &v.iter().map(|x| Some(*x)).collect::<Vec<_>>());
        chk(c, "Vec<Box<u8>>", &v.iter().map(|x| Box::new(*x)).collect::<Vec<_>>());
        chk(c, "BTreeSet<u8>", &v.iter().cloned().collect::<BTreeSet<_>>());
        chk(c, "HashSet<u8>", &v.iter().cloned().collect::<HashSet<_>>());
        chk(c, "Vec<Vec<u8>>", &vec![v.clone(), vec![], v.clone()]);
        chk(c, "Vec<&[u8]>", &vec![&v[..], &v[..]].iter().map(|x| x.to_vec()).collect::<Vec<_>>());
        #[cfg(feature = "derive")]
        chk(c, "Vec<newtype of u8>", &v.iter().map(|x| crate::derive::Wrap(*x)).collect::<Vec<_>>());
        chk(c, "BTreeMap<Vec<u8>, Vec<u8>>", &BTreeMap::from([(v.clone(), v.clone())]));
        chk(c, "Option<Vec<u8>>", &Some(v.clone()));
        chk(c, "Box<Vec<u8>>", &Box::new(v.clone()));
    }
    let b: Vec<u8> = (0..=255).collect();
    macro_rules! arr { ($($n:literal)*) => { $( { let a: [u8; $n] = std::array::from_fn(|i| b[(i * 37) % 256]); chk(c, stringify!([u8; $n]), &a); let a: [i8; $n] = std::array::from_fn(|i| i as i8); chk(c, stringify!([i8; $n]), &a);
        let a: [[u8; 2]; $n] = std::array::from_fn(|i| [i as u8, 255]); chk(c, "array of byte arrays", &a); let a: [bool; $n] = std::array::from_fn(|i| i % 2 == 0); chk(c, "array of bool", &a); } )* } }
    arr!(0 1 2 3 8 16 31 32 33 64 200);
    run::<Vec<Vec<u8>>>(c, 200);
    run::<[u8; 3]>(c, 200);
    run::<(Vec<u8>, [u8; 2])>(c, 200);
}

// --- C17 -------------------------------------------------------------------
/// A value tree that reports every call and may fail at the n-th one.
#[derive(Debug, Clone)]
pub struct Node {
    id: u32,
    kind: NodeKind,
}
#[derive(Debug, Clone)]
enum NodeKind {
    Atom(Ev),
    Seq(Vec<Node>),
    Map(Vec<(Node, Node)>),
    Struct(Vec<(String, bool, Node)>),
}
thread_local! { static FUSE: std::cell::Cell<i64> = std::cell::Cell::new(-1); }
fn fuse(what: &str) -> Result<(), Error> {
    FUSE.with(|f| {
        let v = f.get();
        if v >= 0 {
            f.set(v - 1);
        }
        if v == 0 {
            Err(Error::new(ErrorKind::WrongLength, format!("planned failure in {}", what)))
        } else {
            Ok(())
        }
    })
}
struct IdDesc(String);
impl Descriptor for IdDesc {
    fn name(&self) -> Option<&str> {
        Some(&self.0)
    }
}
struct WithDesc {
    node: Node,
    desc: IdDesc,
    kids: Vec<(Option<(String, bool)>, WithDesc)>,
}
impl WithDesc {
    fn new(n: &Node) -> WithDesc {
        let kids = match &n.kind {
            NodeKind::Atom(_) => vec![],
            NodeKind::Seq(v) => v.iter().map(|x| (None, WithDesc::new(x))).collect(),
            NodeKind::Map(v) => v.iter().flat_map(|(a, b)| [(None, WithDesc::new(a)), (None, WithDesc::new(b))]).collect(),
            NodeKind::Struct(v) => v.iter().map(|(k, o, x)| (Some((k.clone(), *o)), WithDesc::new(x))).collect(),
        };
        WithDesc { node: n.clone(), desc: IdDesc(format!("n{}", n.id)), kids }
    }
}
struct NE<'a>(&'a [(Option<(String, bool)>, WithDesc)], usize, u32);
impl<'a> SeqEmitter for NE<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        fuse("seq next")?;
        self.1 += 1;
        Ok(self.0.get(self.1 - 1).map(|x| SerializeHandle::to(&x.1)))
    }
}
impl<'a> MapEmitter for NE<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        fuse("next_key")?;
        if self.1 >= self.0.len() {
            return Ok(None);
        }
        self.1 += 1;
        Ok(self.0.get(self.1 - 1).map(|x| SerializeHandle::to(&x.1)))
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle, Error> {
        fuse("next_value")?;
        self.1 += 1;
        // owned handles are to work like borrowed ones
        Ok(SerializeHandle::boxed(Ref(&self.0[self.1 - 1].1)))
    }
}
impl<'a> StructEmitter for NE<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        fuse("struct next")?;
        self.1 += 1;
        Ok(self.0.get(self.1 - 1).map(|x| {
            let (k, owned) = x.0.as_ref().unwrap();
            (if *owned { Cow::Owned(k.clone()) } else { Cow::Borrowed(k.as_str()) }, SerializeHandle::to(&x.1))
        }))
    }
}
impl Serialize for WithDesc {
    fn serialize(&self, s: &SerializerState) -> Result<Chunk, Error> {
        call(format!("S{} depth {} in {:?}", self.node.id, s.depth(), s.top_descriptor().map(|d| d.name().unwrap_or("?").to_string())));
        fuse("serialize")?;
        Ok(match &self.node.kind {
            NodeKind::Atom(e) => match to_event(e) {
                deser::Event::Atom(a) => Chunk::Atom(a),
                _ => unreachable!(),
            },
            NodeKind::Seq(_) => Chunk::Seq(Box::new(NE(&self.kids, 0, self.node.id))),
            NodeKind::Map(_) => Chunk::Map(Box::new(NE(&self.kids, 0, self.node.id))),
            NodeKind::Struct(_) => Chunk::Struct(Box::new(NE(&self.kids, 0, self.node.id))),
        })
    }
    fn finish(&self, s: &SerializerState) -> Result<(), Error> {
        call(format!("F{} depth {}", self.node.id, s.depth()));
        fuse("finish")
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.desc
    }
}
fn rand_node(r: &mut Rng, d: u32, id: &mut u32) -> Node {
    *id += 1;
    let my = *id;
    let kind = if d == 0 || r.below(4) == 0 {
        NodeKind::Atom(rand_atom(r))
    } else {
        let n = r.below(4);
        match r.below(3) {
            0 => NodeKind::Seq((0..n).map(|_| rand_node(r, d - 1, id)).collect()),
            1 => NodeKind::Map((0..n).map(|_| (rand_node(r, d - 1, id), rand_node(r, d - 1, id))).collect()),
            _ => NodeKind::Struct((0..n).map(|_| (rand_str(r), r.below(2) == 0, rand_node(r, d - 1, id))).collect()),
        }
    };
    Node { id: my, kind }
}
/// The calls and events that must happen, in order.
fn trace(n: &Node, depth: usize, top: Option<&str>, o: &mut Vec<String>) {
    let name = format!("n{}", n.id);
    o.push(format!("S{} depth {} in {:?}", n.id, depth, top));
    match &n.kind {
        NodeKind::Atom(e) => o.push(format!("E {:?} {}", e, name)),
        NodeKind::Seq(v) => {
            o.push(format!("E SeqStart {}", name));
            v.iter().for_each(|x| trace(x, depth + 1, Some(&name), o));
            o.push(format!("E SeqEnd {}", name));
        }
        NodeKind::Map(v) => {
            o.push(format!("E MapStart {}", name));
            for (a, b) in v {
                trace(a, depth + 1, Some(&name), o);
                trace(b, depth + 1, Some(&name), o);
            }
            o.push(format!("E MapEnd {}", name));
        }
        NodeKind::Struct(v) => {
            o.push(format!("E MapStart {}", name));
            for (k, _, x) in v {
                o.push(format!("E {:?} *", Ev::Str(k.clone())));
                trace(x, depth + 1, Some(&name), o);
            }
            o.push(format!("E MapEnd {}", name));
        }
    }
    o.push(format!("F{} depth {}", n.id, depth));
}
fn drive(n: &Node, stop: Option<usize>) -> Result<Vec<String>, String> {
    let w = WithDesc::new(n);
    calls();
    let mut d = SerializeDriver::new(&w);
    let mut count = 0;
    loop {
        if stop == Some(count) {
            return Ok(calls());
        }
        count += 1;
        match d.next() {
            Ok(Some((e, desc, _))) => {
                let e = event_ev(&e);
                let dn = desc.name().unwrap_or("?").to_string();
                call(format!("E {:?} {}", e, dn));
            }
            Ok(None) => {
                for _ in 0..3 {
                    match d.next() {
                        Ok(None) => {}
                        o => return Err(format!("after the end: {:?}", o.map(|x| x.map(|y| event_ev(&y.0))))),
                    }
                }
                return Ok(calls());
            }
            Err(e) => {
                let v = calls();
                return Err(format!("{}|{:?}|{}", v.len(), e.kind(), e));
            }
        }
        if count > 1_000_000 {
            return Err("endless".into());
        }
    }
}
fn trace_check(n: &Node) -> Result<(), String> {
    let mut want = vec![];
    trace(n, 0, None, &mut want);
    let got = drive(n, None)?;
    for (i, w) in want.iter().enumerate() {
        let g = got.get(i).cloned().unwrap_or("nothing".into());
        // the descriptor of a field name is not part of the contract
        let ok = if let Some(p) = w.strip_suffix(" *") { g.starts_with(p) } else { g == *w };
        if !ok {
            return Err(format!("step {}: got {}, expected {}", i, g, w));
        }
    }
    if got.len() > want.len() {
        return Err(format!("after the end: {}", got[want.len()]));
    }
    Ok(())
}
pub fn c17(c: &mut Ctx) {
    c.rule("random values of atoms, sequences, maps and structs (depth to 6) that report every call; planned failures at every call; early drop; deep nestings; long containers");
    let n = if c.thorough { 60_000 } else { 4000 };
    for i in 0..n {
        if c.done() {
            return;
        }
        let mut id = 0;
        let d = 1 + c.rng.below(6) as u32;
        let node = rand_node(&mut c.rng, d, &mut id);
        c.case(|| format!("{:?}", node), format!("{:?}", node).as_bytes(), true, || trace_check(&node));
        if i % 4 == 0 {
            // failures come out unchanged, at the call that failed
            for k in 0..12 {
                c.case(
                    || format!("{:?} failing at call {}", node, k),
                    format!("{:?}{}", node, k).as_bytes(),
                    true,
                    || {
                        FUSE.with(|f| f.set(k));
                        let r = drive(&node, None);
                        let left = FUSE.with(|f| f.replace(-1));
                        if left >= 0 {
                            return r.map(|_| ()).map_err(|e| format!("unexpected error {}", e));
                        }
                        match r {
                            Ok(_) => Err("the error was lost".into()),
                            Err(e) if e.contains("|WrongLength|") && e.contains("planned failure in") => Ok(()),
                            Err(e) => Err(format!("the error was changed: {}", e)),
                        }
                    },
                );
            }
            // dropping the driver early is fine
            for k in 0..6 {
                c.case(|| format!("{:?} dropped after {} events", node, k), format!("drop{:?}{}", node, k).as_bytes(), false, || drive(&node, Some(k)).map(|_| ()));
            }
        }
    }
    for depth in [100u32, 127, 128, 129, 130, 300, 1000] {
        for kind in 0..4 {
            let mut n = Node { id: 1, kind: NodeKind::Atom(Ev::Null) };
            for i in 0..depth {
                let k = if kind == 3 { i % 3 } else { kind };
                let leaf = |x: u32| Node { id: x + 1_000_000, kind: NodeKind::Atom(Ev::U64(7)) };
                n = Node {
                    id: i + 2,
                    kind: match k {
                        0 => NodeKind::Seq(vec![leaf(i), n, leaf(i + 500_000)]),
                        1 => NodeKind::Map(vec![(leaf(i), n)]),
                        _ => NodeKind::Struct(vec![("k".into(), true, n)]),
                    },
                };
            }
            c.case(|| format!("nesting {} of kind {}", depth, kind), format!("deep{}{}", depth, kind).as_bytes(), true, || trace_check(&n));
        }
    }
    for len in [127u32, 128, 129, 300, 20_000] {
        for kind in 0..3 {
            let leaf = |x: u32| Node { id: x, kind: NodeKind::Atom(Ev::U64(x as u64)) };
            let n = Node {
                id: 1,
                kind: match kind {
                    0 => NodeKind::Seq((0..len).map(|x| leaf(x + 2)).collect()),
                    1 => NodeKind::Map((0..len).map(|x| (leaf(2 * x + 2), leaf(2 * x + 3))).collect()),
                    _ => NodeKind::Struct((0..len).map(|x| (x.to_string(), x % 2 == 0, leaf(x + 2))).collect()),
                },
            };
            c.case(|| format!("{} entries of kind {}", len, kind), format!("long{}{}", len, kind).as_bytes(), true, || trace_check(&n));
        }
    }
}

// --- C27 -------------------------------------------------------------------
fn conv(c: &mut Ctx, what: &str, e: deser::Event<'_>, ch: Option<Chunk<'_>>, want: Ev) {
    c.case(
        || format!("{} {:?}", what, want),
        format!("{} {:?}", what, want).as_bytes(),
        true,
        || {
            eq("event", event_ev(&e), want.clone())?;
            if let Some(ch) = ch {
                match ch {
                    Chunk::Atom(a) => eq("chunk", atom_ev(&a), want.clone())?,
                    _ => return Err("the chunk is no atom".into()),
                }
            }
            let s = e.to_static();
            eq("static copy", event_ev(&s), want.clone())?;
            if let deser::Event::Atom(a) = &e {
                eq("static atom", atom_ev(&a.to_static()), want.clone())?;
                if !matches!(want, Ev::F64(x) if x.is_nan()) && a.to_static() != *a {
                    return Err("the static copy is not equal".into());
                }
            }
            if !matches!(want, Ev::F64(x) if x.is_nan()) && s != e {
                return Err("the static copy is not equal".into());
            }
            Ok(())
        },
    );
}
pub fn c27(c: &mut Ctx) {
    c.rule("every conversion into Event and Chunk with boundary and random values, borrowed and owned strings and bytes, and static copies of all events");
    use deser::{Atom, Event};
    let n = if c.thorough { 100_000 } else { 3000 };
    for i in 0..n {
        let b = match i % 3 { 0 => *c.rng.pick(INTS) as u64, 1 => c.rng.next(), _ => c.rng.next() >> c.rng.below(64) };
        conv(c, "u64", b.into(), Some(b.into()), Ev::U64(b));
        conv(c, "usize", (b as usize).into(), Some((b as usize).into()), Ev::U64(b));
        for s in [b as i64, (b as i64).wrapping_neg()] {
            conv(c, "i64", s.into(), Some(s.into()), Ev::I64(s));
            conv(c, "isize", (s as isize).into(), Some((s as isize).into()), Ev::I64(s));
        }
        let f = if i % 2 == 0 { *c.rng.pick(FLOATS) } else { f64::from_bits(b) };
        conv(c, "f64", f.into(), Some(f.into()), Ev::F64(f));
        let ch = char::from_u32((b % 0x110000) as u32).unwrap_or('x');
        conv(c, "char", ch.into(), Some(ch.into()), Ev::Char(ch));
        let s = rand_str(&mut c.rng);
        conv(c, "&str", s.as_str().into(), Some(s.as_str().into()), Ev::Str(s.clone()));
        conv(c, "String", s.clone().into(), Some(s.clone().into()), Ev::Str(s.clone()));
        conv(c, "Cow", Cow::Borrowed(s.as_str()).into(), None, Ev::Str(s.clone()));
        conv(c, "Cow", Cow::<str>::Owned(s.clone()).into(), None, Ev::Str(s.clone()));
        let v: Vec<u8> = (0..c.rng.below(9)).map(|_| c.rng.next() as u8).collect();
        conv(c, "&[u8]", (&v[..]).into(), Some((&v[..]).into()), Ev::Bytes(v.clone()));
        let e = rand_atom(&mut c.rng);
        if let Event::Atom(a) = to_event(&e) {
            conv(c, "Atom", a.clone().into(), Some(a.into()), e);
        }
        conv(c, "bytes", Event::Atom(Atom::Bytes(Cow::Borrowed(&v))), None, Ev::Bytes(v.clone()));
    }
    conv(c, "()", ().into(), Some(().into()), Ev::Null);
    for b in [true, false] {
        conv(c, "bool", b.into(), Some(b.into()), Ev::Bool(b));
    }
    for e in [Ev::MapStart, Ev::MapEnd, Ev::SeqStart, Ev::SeqEnd] {
        conv(c, "event", to_event(&e), None, e);
    }
}
