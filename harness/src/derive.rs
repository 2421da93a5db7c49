//! Derived types (C23 - C26): the generated types of gen.rs against the
//! description they were generated from.
use crate::ctx::*;
use crate::de::*;
use crate::model::*;
use crate::ser::{chk, try_val, ToTree};
use deser::de::{Deserialize, DeserializeDriver};
use deser::{ErrorKind, Serialize};

pub use crate::gen::*;

/// Why a struct cannot be built.
#[derive(Default, Debug)]
pub struct Miss {
    pub bad: bool,
    pub names: Vec<&'static str>,
}
impl Miss {
    pub fn sub<T>(&mut self, r: Result<T, Miss>) -> Option<T> {
        match r {
            Ok(x) => Some(x),
            Err(m) => {
                self.bad |= m.bad;
                self.names.extend(m.names);
                if !self.bad && self.names.is_empty() {
                    self.bad = true;
                }
                None
            }
        }
    }
}
/// A derived struct, by the keys it knows.
pub trait Strukt: Sized {
    fn lit() -> Self;
    fn known(k: &str) -> bool;
    fn keys() -> Vec<&'static str>;
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree;
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss>;
}
pub fn string_keys(t: &Tree) -> R<Vec<(String, Tree)>> {
    pairs(t)?
        .into_iter()
        .map(|(k, v)| match k {
            Tree::Atom(Ev::Str(s)) => Ok((s, v)),
            _ => Err(Bad::Any),
        })
        .collect()
}
pub fn gen_struct<T: Strukt>(r: &mut Rng, d: u32) -> Tree {
    let mut keys = T::keys();
    // any order
    for i in (1..keys.len()).rev() {
        let j = r.below(i + 1);
        keys.swap(i, j);
    }
    let drop = r.below(3) == 0 && !pure();
    let mut v: Vec<(String, Tree)> = vec![];
    for k in keys {
        if drop && r.below(4) == 0 {
            continue;
        }
        v.push((k.to_string(), T::gen_value(k, r, d.saturating_sub(1))));
    }
    if !v.is_empty() && r.below(5) == 0 {
        let k = v[r.below(v.len())].0.clone();
        let x = T::gen_value(&k, r, d.saturating_sub(1));
        v.push((k, x));
    }
    if r.below(5) == 0 {
        let k = rand_str(r);
        if !T::known(&k) {
            let i = r.below(v.len() + 1);
            v.insert(i, (k, rand_tree(r, 2)));
        }
    }
    Tree::Struct(v)
}
macro_rules! strukt_model { ($t:ident) => { impl Model for $t {
    fn model(t: &Tree) -> R<$t> {
        <$t as Strukt>::build(&string_keys(t)?).map_err(|_| Bad::Any)
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        gen_struct::<$t>(r, d)
    }
    fn name() -> String {
        stringify!($t).into()
    }
} } }
pub(crate) use strukt_model;

pub trait Names: Sized {
    fn rows() -> Vec<(Self, &'static str, Vec<&'static str>)>;
}
macro_rules! enum_model { ($t:ident) => {
    impl Model for $t {
        const SCALAR: bool = true;
        fn model(t: &Tree) -> R<$t> {
            if let Tree::Atom(Ev::Str(s)) = t {
                for (v, n, al) in <$t as Names>::rows() {
                    if n == s || al.contains(&s.as_str()) {
                        return Ok(v);
                    }
                }
            }
            Err(Bad::Any)
        }
        fn gen(r: &mut Rng, _: u32) -> Tree {
            let rows = <$t as Names>::rows();
            let (_, n, al) = r.pick(&rows);
            let mut all = vec![*n];
            all.extend(al);
            Tree::Atom(Ev::Str(r.pick(&all).to_string()))
        }
        fn name() -> String {
            stringify!($t).into()
        }
    }
    impl ToTree for $t {
        fn tree(&self) -> Tree {
            Tree::Atom(Ev::Str(<$t as Names>::rows().into_iter().find(|r| r.0 == *self).unwrap().1.to_string()))
        }
    }
} }
pub(crate) use enum_model;

macro_rules! newtype_model { ($t:ident, $i:ty) => {
    impl Model for $t {
        const SCALAR: bool = <$i as Model>::SCALAR;
        fn model(t: &Tree) -> R<$t> {
            <$i as Model>::model(t).map($t)
        }
        fn gen(r: &mut Rng, d: u32) -> Tree {
            <$i as Model>::gen(r, d)
        }
        fn name() -> String {
            format!("{}({})", stringify!($t), <$i as Model>::name())
        }
    }
    impl ToTree for $t {
        fn tree(&self) -> Tree {
            self.0.tree()
        }
        fn absent(&self) -> bool {
            self.0.absent()
        }
    }
} }
pub(crate) use newtype_model;
macro_rules! newtype_strukt { ($t:ident, $i:ty) => { impl Strukt for $t {
    fn lit() -> Self {
        $t(<$i as Strukt>::lit())
    }
    fn known(k: &str) -> bool {
        <$i as Strukt>::known(k)
    }
    fn keys() -> Vec<&'static str> {
        <$i as Strukt>::keys()
    }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree {
        <$i as Strukt>::gen_value(k, r, d)
    }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        <$i as Strukt>::build(e).map($t)
    }
} } }
pub(crate) use newtype_strukt;

/// The condition of every generated skip_serializing_if.
pub fn skip_hash<T: ToTree>(x: &T) -> bool {
    format!("{:?}", x.tree()).bytes().map(|b| b as usize).sum::<usize>() % 2 == 0
}
pub fn splice(o: &mut Vec<(String, Tree)>, t: Tree) {
    match t {
        Tree::Struct(v) => o.extend(v),
        _ => unreachable!(),
    }
}

// --- C20 -------------------------------------------------------------------
fn structs_in(t: &mut Tree, f: &mut dyn FnMut(&mut Vec<(String, Tree)>)) {
    match t {
        Tree::Struct(v) => {
            for (_, x) in v.iter_mut() {
                structs_in(x, f);
            }
            f(v);
        }
        Tree::Seq(v) => v.iter_mut().for_each(|x| structs_in(x, f)),
        Tree::Map(v) => v.iter_mut().for_each(|(_, x)| structs_in(x, f)),
        _ => {}
    }
}
fn with_unknown<T: Model + Strukt>(c: &mut Ctx, junk: &Tree) {
    let t = T::gen(&mut c.rng, 3);
    let want = T::model(&t);
    let mut t2 = t.clone();
    let rng = &mut c.rng;
    structs_in(&mut t2, &mut |v| {
        for _ in 0..rng.below(3) {
            let i = rng.below(v.len() + 1);
            v.insert(i, (format!("zz unknown {}", rng.below(3)), junk.clone()));
        }
    });
    let evs = t2.evs();
    c.case(
        || format!("{} from {}", T::name(), short(&evs)),
        format!("unk{}{:?}", T::name(), evs).as_bytes(),
        true,
        || {
            let (r, got) = feed::<T>(&evs);
            match (&want, r) {
                (Ok(w), Ok(())) if got.as_ref() == Some(w) => Ok(()),
                (Err(_), Err(_)) => Ok(()),
                (w, r) => Err(format!("{:?} {:?}, without the unknown keys {:?}", r, got, w)),
            }
        },
    );
}
pub fn unknown_key(c: &mut Ctx, junk: &Tree) {
    with_unknown::<Plain>(c, junk);
    with_unknown::<Flat>(c, junk);
    with_unknown::<WrapPlain>(c, junk);
    macro_rules! some { ($($t:ident)*) => { { let n = [$(stringify!($t)),*].len(); let k = c.rng.below(n); let mut i = 0; $( if i == k { with_unknown::<$t>(c, junk); } i += 1; )* let _ = i; } } }
    all_structs!(some);
}

// --- C24 -------------------------------------------------------------------
fn struct_de<T: Model + Strukt>(c: &mut Ctx, n: usize) {
    run::<T>(c, n);
    for _ in 0..if c.thorough { n * 5 } else { n / 2 } {
        // missing fields are named
        let mut t = T::gen(&mut c.rng, 3);
        if let Tree::Struct(v) = &mut t {
            for _ in 0..1 + c.rng.below(2) {
                if !v.is_empty() {
                    let i = c.rng.below(v.len());
                    v.remove(i);
                }
            }
        }
        let e = string_keys(&t).unwrap();
        let evs = t.evs();
        if let Err(m) = T::build(&e) {
            if m.bad {
                continue;
            }
            c.case(
                || format!("{} from {:?}", T::name(), evs),
                format!("miss{}{:?}", T::name(), evs).as_bytes(),
                true,
                || {
                    let mut out = None::<T>;
                    let mut d = DeserializeDriver::new(&mut out);
                    for e in &evs {
                        if let Err(x) = d.emit(to_event(e)) {
                            if x.kind() != ErrorKind::MissingField {
                                return Err(format!("failed with {:?}, expected a missing field", x));
                            }
                            let s = x.to_string();
                            if !m.names.iter().any(|n| s.contains(n)) {
                                return Err(format!("the error {:?} names none of {:?}", s, m.names));
                            }
                            return Ok(());
                        }
                    }
                    Err(format!("accepted, expected an error about {:?}", m.names))
                },
            );
        }
    }
    // one key at a time, every key and alias
    for k in T::keys() {
        for _ in 0..3 {
            let base = T::gen(&mut c.rng, 3);
            if let Tree::Struct(mut v) = base {
                v.retain(|x| x.0 != k);
                v.insert(0, (k.to_string(), T::gen_value(k, &mut c.rng, 3)));
                check_tree::<T>(c, &Tree::Struct(v.clone()));
                let (a, b) = (T::gen_value(k, &mut c.rng, 3), T::gen_value(k, &mut c.rng, 3));
                v.push((k.to_string(), a));
                v.push((k.to_string(), b));
                check_tree::<T>(c, &Tree::Struct(v.clone()));
                v.insert(0, (k.to_string(), rand_tree(&mut c.rng, 2)));
                check_tree::<T>(c, &Tree::Struct(v));
            }
        }
    }
    check_tree::<T>(c, &Tree::Struct(vec![]));
    check_tree::<T>(c, &Tree::Seq(vec![]));
    for _ in 0..10 {
        let t = rand_tree(&mut c.rng, 1);
        check_tree::<T>(c, &t);
    }
}
pub fn c24(c: &mut Ctx) {
    c.rule("80 generated structs (renames, rules, aliases, defaults, container defaults, flattening, nesting): random inputs in any order with missing, duplicate, unknown and damaged entries");
    let n = 120;
    macro_rules! go { ($($t:ident)*) => { $( struct_de::<$t>(c, n); )* } }
    all_structs!(go);
    all_name_structs!(go);
    run::<Vec<Plain>>(c, 300);
    run::<Option<Flat>>(c, 300);
    run::<Box<Flat>>(c, 300);
    run::<std::collections::BTreeMap<String, Flat>>(c, 300);
    generic(c);
    optional_flatten(c);
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq)]
struct OfInner {
    a: u64,
    b: bool,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq)]
struct OfRest {
    z: Option<u64>,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq)]
struct OfOuter {
    x: u64,
    #[deser(flatten)]
    inner: Option<OfInner>,
    #[deser(flatten)]
    boxed: Box<OfRest>,
}
/// A flattened optional or boxed struct takes part in the dispatch of keys.
fn optional_flatten(c: &mut Ctx) {
    let atom = |v: u64| Tree::Atom(Ev::U64(v));
    for i in 0..64u64 {
        let (x, a, b, z) = (i % 2 == 0, i / 2 % 2 == 0, i / 4 % 2 == 0, i / 8 % 2 == 0);
        let mut e: Vec<(String, Tree)> = vec![];
        for (on, k, v) in [(x, "x", atom(i)), (a, "a", atom(7)), (b, "b", Tree::Atom(Ev::Bool(true))), (z, "z", atom(9))] {
            if on {
                e.push((k.into(), v));
            }
        }
        if i / 16 % 2 == 0 {
            e.reverse();
        }
        if i / 32 == 1 {
            e.push(("unknown".into(), Tree::Seq(vec![atom(1)])));
        }
        let evs = Tree::Struct(e).evs();
        c.case(|| format!("struct with a flattened optional and a flattened box from {:?}", evs), format!("of{}", i).as_bytes(), true, || {
            let (r, got) = feed::<OfOuter>(&evs);
            let inner = if a && b { Some(OfInner { a: 7, b: true }) } else { None };
            let want = if x && a == b { Some(OfOuter { x: i, inner, boxed: Box::new(OfRest { z: if z { Some(9) } else { None } }) }) } else { None };
            eq("result", (r.is_ok(), got), (want.is_some(), want))
        });
    }
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq)]
struct Gen1<T> {
    a: T,
    #[deser(alias = "bee")]
    b: Vec<T>,
    c: Option<T>,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq)]
struct GenNew<T>(T);
fn generic(c: &mut Ctx) {
    for i in 0..100u64 {
        let t = Tree::Struct(vec![
            ("a".into(), Tree::Atom(Ev::U64(i))),
            ("bee".into(), Tree::Seq((0..i % 4).map(|x| Tree::Atom(Ev::U64(x))).collect())),
        ]);
        let evs = t.evs();
        c.case(|| format!("generic struct from {:?}", evs), format!("gen{}", i).as_bytes(), true, || {
            let (r, got) = feed::<Gen1<u64>>(&evs);
            eq("result", (r.is_ok(), got), (true, Some(Gen1 { a: i, b: (0..i % 4).collect(), c: None })))?;
            let (r, got) = feed::<GenNew<Gen1<u64>>>(&evs);
            eq("result", (r.is_ok(), got), (true, Some(GenNew(Gen1 { a: i, b: (0..i % 4).collect(), c: None }))))
        });
        let v = GenNew(Gen1 { a: i as u16, b: vec![1, i as u16], c: Some(3) });
        c.case(|| format!("generic struct {:?}", v), format!("gens{}", i).as_bytes(), true, || {
            let w = Tree::Struct(vec![
                ("a".into(), Tree::Atom(Ev::U64(i))),
                ("b".into(), Tree::Seq(vec![Tree::Atom(Ev::U64(1)), Tree::Atom(Ev::U64(i))])),
                ("c".into(), Tree::Atom(Ev::U64(3))),
            ]);
            eq("events", ser_events(&v)?, w.evs())
        });
    }
}

// --- C25 -------------------------------------------------------------------
fn struct_ser<T: Model + Strukt + Serialize + ToTree>(c: &mut Ctx, n: usize) {
    for _ in 0..if c.thorough { n * 20 } else { n } {
        if c.done() {
            return;
        }
        // some flattened structs shadow each other's keys and never arrive
        let v: T = try_val(c, 50).unwrap_or_else(T::lit);
        chk(c, &T::name(), &v);
    }
}
pub fn c25(c: &mut Ctx) {
    c.rule("80 generated structs (renames, rules, flattening, skip conditions, skipped optionals, nesting), random values, serialized and compared with the description they were generated from");
    let n = 120;
    macro_rules! go { ($($t:ident)*) => { $( struct_ser::<$t>(c, n); )* } }
    all_structs!(go);
    all_name_structs!(go);
    crate::ser::run::<Vec<Flat>>(c, 100);
    crate::ser::run::<Option<Flat>>(c, 100);
    crate::ser::run::<(Flat, Plain)>(c, 100);
    flatten_hooks(c);
}
#[derive(deser::Serialize)]
struct FlatHook {
    before: u8,
    #[deser(flatten)]
    inner: HookStruct,
    after: u8,
    #[deser(flatten)]
    inner2: HookStruct,
}
struct HookStruct(Vec<u8>);
struct HookEm<'a>(std::slice::Iter<'a, u8>);
impl<'a> deser::ser::StructEmitter for HookEm<'a> {
    fn next(&mut self, _: &deser::ser::SerializerState) -> Result<Option<(std::borrow::Cow<'_, str>, deser::ser::SerializeHandle)>, deser::Error> {
        Ok(self.0.next().map(|x| (format!("k{}", x).into(), deser::ser::SerializeHandle::to(x))))
    }
}
impl Serialize for HookStruct {
    fn serialize(&self, _: &deser::ser::SerializerState) -> Result<deser::ser::Chunk, deser::Error> {
        crate::ser::call("serialize".into());
        Ok(deser::ser::Chunk::Struct(Box::new(HookEm(self.0.iter()))))
    }
    fn finish(&self, _: &deser::ser::SerializerState) -> Result<(), deser::Error> {
        crate::ser::call("finish".into());
        Ok(())
    }
}
fn flatten_hooks(c: &mut Ctx) {
    for n in 0..8u8 {
        for m in 0..8u8 {
            let v = FlatHook { before: 1, inner: HookStruct((0..n).collect()), after: 2, inner2: HookStruct((20..20 + m).collect()) };
            c.case(|| format!("struct with flattened structs of {} and {} fields", n, m), format!("fh{} {}", n, m).as_bytes(), true, || {
                crate::ser::calls();
                let f = |x: u8| (format!("k{}", x), Tree::Atom(Ev::U64(x as u64)));
                let mut w = vec![("before".to_string(), Tree::Atom(Ev::U64(1)))];
                w.extend((0..n).map(f));
                w.push(("after".into(), Tree::Atom(Ev::U64(2))));
                w.extend((20..20 + m).map(f));
                eq("events", ser_events(&v)?, Tree::Struct(w).evs())?;
                eq("hooks of the flattened values", crate::ser::calls(), ["serialize", "finish", "serialize", "finish"].map(String::from).to_vec())
            });
        }
    }
}

// --- C23 -------------------------------------------------------------------
pub fn c23(c: &mut Ctx) {
    c.rule("every rename rule (and none) over 20 field names and 18 variant names (digits, double and trailing underscores, single letters, raw identifiers, explicit renames), written and read");
    macro_rules! go { ($($t:ident)*) => { $( struct_ser::<$t>(c, 20); struct_de::<$t>(c, 60); )* } }
    all_name_structs!(go);
    macro_rules! en { ($($t:ident)*) => { $( enum_all::<$t>(c); )* } }
    all_name_enums!(en);
    non_ascii(c);
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone, Copy)]
#[deser(rename_all = "camelCase")]
enum NonAscii {
    ÄhnlichWie,
    Ok,
}
fn non_ascii(c: &mut Ctx) {
    // only that it is usable at all: which case rules apply is not specified
    c.check("an enum with a variant that starts with a letter outside ASCII", || {
        for v in [NonAscii::ÄhnlichWie, NonAscii::Ok] {
            let e = ser_events(&v)?;
            eq("back", feed::<NonAscii>(&e).1, Some(v))?;
        }
        Ok(())
    });
}

// --- C26 -------------------------------------------------------------------
fn enum_all<T: Model + Names + Serialize + ToTree + Copy>(c: &mut Ctx) {
    let rows = T::rows();
    for (v, n, al) in &rows {
        chk(c, &T::name(), v);
        for s in std::iter::once(n).chain(al) {
            check_tree::<T>(c, &Tree::Atom(Ev::Str(s.to_string())));
            for x in [s.to_uppercase(), s.to_lowercase(), format!("{} ", s), format!(" {}", s), format!("{}{}", s, s), s.chars().skip(1).collect(), s.chars().rev().collect()] {
                check_tree::<T>(c, &Tree::Atom(Ev::Str(x)));
            }
            check_tree::<T>(c, &Tree::Atom(Ev::Bytes(s.as_bytes().to_vec())));
            if let Some(ch) = s.chars().next() {
                check_tree::<T>(c, &Tree::Atom(Ev::Char(ch)));
            }
            check_tree::<T>(c, &Tree::Seq(vec![Tree::Atom(Ev::Str(s.to_string()))]));
            check_tree::<T>(c, &Tree::Map(vec![(Tree::Atom(Ev::Str(s.to_string())), Tree::Atom(Ev::Null))]));
        }
    }
    for i in 0..rows.len() as u64 + 1 {
        check_tree::<T>(c, &Tree::Atom(Ev::U64(i)));
        check_tree::<T>(c, &Tree::Atom(Ev::I64(i as i64)));
    }
    for _ in 0..if c.thorough { 2000 } else { 100 } {
        let t = rand_tree(&mut c.rng, 1);
        check_tree::<T>(c, &t);
    }
}
#[derive(deser::Serialize)]
struct NewHook(crate::ser::Hooked);
pub fn c26(c: &mut Ctx) {
    c.rule("27 generated enums (rules, renames, aliases): every name and alias, near misses and other kinds; newtypes around scalars, containers, structs, enums, newtypes and values with hooks");
    macro_rules! en { ($($t:ident)*) => { $( enum_all::<$t>(c); run::<Vec<$t>>(c, 30); run::<Option<$t>>(c, 30); )* } }
    all_enums!(en);
    all_name_enums!(en);
    macro_rules! nt { ($($t:ident)*) => { $( run::<$t>(c, 600); crate::ser::run::<$t>(c, 100); run::<Vec<$t>>(c, 100); run::<Option<$t>>(c, 100); run::<(u8, $t)>(c, 50); )* } }
    all_newtypes!(nt);
    for t in scalars(c).iter().filter(|t| !matches!(t, Tree::Atom(Ev::Char(_)))).take(3000) {
        check_tree::<Wrap>(c, t);
        check_tree::<WrapOpt>(c, t);
        check_tree::<WrapUnit>(c, t);
        check_tree::<WrapBytes>(c, t);
        check_tree::<WrapColor>(c, t);
        check_tree::<WrapPlain>(c, t);
    }
    for o in [false, true] {
        crate::ser::hooked(c, "newtype", &NewHook(crate::ser::Hooked(o)), o, true);
        crate::ser::hooked(c, "&newtype", &&NewHook(crate::ser::Hooked(o)), o, true);
    }
    generic(c);
}
#[allow(unused)]
fn _assert<T: Deserialize>() {}
